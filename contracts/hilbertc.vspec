@@module codec::hilbertc src/codec/hilbertc.rs

@@grewrite image:: ==> crate::image:: -- stand-in for the image crate
@@grewrite use crate::prs::{self, ParseError, ParseAlternatives}; ==>  -- used by the argument parsers only
@@drop <Hilbert as FromStr> -- under contract as codec::args_hilbertc
@@drop <CompressionMethod as FromStr> -- under contract as codec::args_hilbertc
@@drop <Delta as FromStr> -- under contract as codec::args_hilbertc

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::codec::*;
use crate::fl::*;
use vstd::std_specs::cmp::PartialEqSpec;
use crate::image::{Rgba, area, at, lemma_area, axiom_dynamic, axiom_rgb_key, lemma_px_len};
use crate::huf::{huf_encodes, lemma_deliver, lemma_delivered, dec_n, dec_all, trie_plen, trie_pval, payload, BinTrie, DecStream, clone_is_eq};
use crate::hilbert::{along, places, theorem_places, lemma_along_injective};
use crate::bit::{bytes_bits, BitOrder, Bit};
use crate::zip::dict::{sdec, enc, singles, pair_bytes, after};
use crate::ser::{RoundTrip, DeserStream, ser_n, flat_ser};
use crate::rt::It;

/// the colours of an image along the curve
pub open spec fn lin(img: Img) -> Seq<Rgb<u8>> { along(img.dims(), img.rgb()) }

pub open spec fn linr(img: &Img) -> Seq<Rgb<u8>> { lin(*img) }

pub proof fn lemma_linr(img: &Img)
    ensures
        linr(img).len() == along(img.dims(), img.px()).len(),
        forall|i: int| 0 <= i < linr(img).len() ==> (#[trigger] along(img.dims(), img.px())[i]).rgb() == linr(img)[i],
{
    lemma_lin(*img);
}

pub proof fn lemma_lin(img: Img)
    ensures
        lin(img).len() == area(img.dims()), nonempty(img) ==> lin(img).len() > 0,
        along(img.dims(), img.px()).len() == lin(img).len(),
        forall|i: int| 0 <= i < lin(img).len() ==> (#[trigger] along(img.dims(), img.px())[i]).rgb() == lin(img)[i],
{
    lemma_px_len(img);
    lemma_area(img.dims());
    crate::zhang_hilbert::axiom_scan(img.dims());
}

@@grewrite SignedColor([0; 3]) ==> SignedColor([0, 0, 0]) -- array repeat expression written out
@@# signed colours

@@top
pub open spec fn signed(c: Rgb<u8>) -> SignedColor { SignedColor([c.0[0] as i16, c.0[1] as i16, c.0[2] as i16]) }

pub open spec fn in_range(a: SignedColor) -> bool { 0 <= a.0[0] <= 255 && 0 <= a.0[1] <= 255 && 0 <= a.0[2] <= 255 }

pub open spec fn sub_c(a: SignedColor, b: SignedColor) -> SignedColor {
    SignedColor([(a.0[0] - b.0[0]) as i16, (a.0[1] - b.0[1]) as i16, (a.0[2] - b.0[2]) as i16])
}

pub open spec fn sub_ok(a: SignedColor, b: SignedColor) -> bool { forall|i: int| 0 <= i < 3 ==> -32768 <= #[trigger] a.0[i] - b.0[i] <= 32767 }

pub open spec fn add_c(a: SignedColor, b: SignedColor) -> SignedColor {
    SignedColor([(a.0[0] + b.0[0]) as i16, (a.0[1] + b.0[1]) as i16, (a.0[2] + b.0[2]) as i16])
}

pub open spec fn add_ok(a: SignedColor, b: SignedColor) -> bool { forall|i: int| 0 <= i < 3 ==> -32768 <= #[trigger] a.0[i] + b.0[i] <= 32767 }

impl vstd::std_specs::convert::FromSpecImpl<Rgb<u8>> for SignedColor {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: Rgb<u8>) -> Self { signed(c) }
}

pub uninterp spec fn int_error() -> std::num::TryFromIntError;

/* TryFromIntError has a single value */
#[verifier::external_body]
pub proof fn axiom_int_error(e: std::num::TryFromIntError)
    ensures e == int_error(),
{
}

pub open spec fn unsigned(a: SignedColor) -> Rgb<u8> { Rgb([a.0[0] as u8, a.0[1] as u8, a.0[2] as u8]) }

impl vstd::std_specs::convert::TryFromSpecImpl<SignedColor> for Rgb<u8> {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(a: SignedColor) -> Result<Self, std::num::TryFromIntError> { if in_range(a) { Ok(unsigned(a)) } else { Err(int_error()) } }
}

pub proof fn lemma_unsigned(a: SignedColor)
    ensures in_range(a) ==> signed(unsigned(a)) == a,
{
    if in_range(a) { assert(signed(unsigned(a)).0 =~= a.0); }
}

impl vstd::std_specs::ops::SubSpecImpl<SignedColor> for SignedColor {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: SignedColor) -> bool { sub_ok(self, rhs) }
    open spec fn sub_spec(self, rhs: SignedColor) -> SignedColor { sub_c(self, rhs) }
}

impl vstd::std_specs::ops::AddSpecImpl<SignedColor> for SignedColor {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: SignedColor) -> bool { add_ok(self, rhs) }
    open spec fn add_spec(self, rhs: SignedColor) -> SignedColor { add_c(self, rhs) }
}

@@fn <SignedColor as From<Rgb<u8>>>::from
@@rewrite value.0 .map(|x| $E) ==> crate::rt::arr3_map(value.0, |x: u8| -> (y: i16) ensures y == x as i16 { $E }) -- array::map written out; closure given its contract
@@tail
    proof { assert(vp_r.0 =~= signed(value).0); }


@@fn <Rgb as TryFrom<SignedColor>>::try_from ret r
@@loop 0
    invariant forall|j: int| 0 <= j < i ==> 0 <= #[trigger] value.0[j] <= 255 && res[j] == value.0[j] as u8,
@@rewrite value.0[i].try_into()? ==> (match value.0[i].try_into() { Ok(x) => x, Err(e) => { proof { axiom_int_error(e); } return Err(e); } }) -- the question mark written out
@@before Ok(Rgb(res))
    proof { assert(Rgb(res).0 =~= unsigned(value).0); }

@@fn <SignedColor as Sub>::sub
@@loop 0
    invariant
        forall|j: int| 0 <= j < i ==> vp_self.0[j] == self.0[j] - rhs.0[j],
        forall|j: int| i <= j < 3 ==> vp_self.0[j] == self.0[j],
        sub_ok(self, rhs),
@@bodystart 0
    proof { assert(-32768 <= self.0[i as int] - rhs.0[i as int] <= 32767); }
@@tail
    proof { assert(vp_r.0 =~= sub_c(self, rhs).0); }

@@fn <SignedColor as Add>::add
@@loop 0
    invariant
        forall|j: int| 0 <= j < i ==> vp_self.0[j] == self.0[j] + rhs.0[j],
        forall|j: int| i <= j < 3 ==> vp_self.0[j] == self.0[j],
        add_ok(self, rhs),
@@bodystart 0
    proof { assert(-32768 <= self.0[i as int] + rhs.0[i as int] <= 32767); }
@@tail
    proof { assert(vp_r.0 =~= add_c(self, rhs).0); }

@@inside <SignedColor as Serialize>
    open spec fn ser(&self) -> Seq<u8> { self.0.ser() }
    open spec fn ser_ok(&self) -> bool { self.0.ser_ok() }
@@fn <SignedColor as Serialize>::serialize
@@inside <SignedColor as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { <[i16; 3] as Deserialize>::plen(s) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { <[i16; 3] as Deserialize>::pval(s, v.0) }
@@fn <SignedColor as Deserialize>::deserialize


@@# runs

@@top
/// how long the first run of s is, when its first k pixels belong to it
pub open spec fn grow<T>(rule: spec_fn(Seq<T>, T) -> bool, s: Seq<T>, k: nat) -> nat
    decreases s.len() - k,
{
    if k < s.len() && k < 255 && rule(s.take(k as int), s[k as int]) { grow(rule, s, k + 1) } else { k }
}

pub proof fn lemma_grow<T>(rule: spec_fn(Seq<T>, T) -> bool, s: Seq<T>, k: nat)
    requires 1 <= k <= s.len(), k <= 255,
    ensures k <= grow(rule, s, k) <= s.len(), grow(rule, s, k) <= 255,
    decreases s.len() - k,
{
    if k < s.len() && k < 255 && rule(s.take(k as int), s[k as int]) { lemma_grow(rule, s, k + 1); }
}

/// a sequence cut into runs: each pixel that the rule allows joins, up to 255
pub open spec fn runs<T>(rule: spec_fn(Seq<T>, T) -> bool, colour: spec_fn(Seq<T>) -> T, s: Seq<T>) -> Seq<(u8, T)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let n = grow(rule, s, 1);
        if 1 <= n <= s.len() { seq![(n as u8, colour(s.take(n as int)))] + runs(rule, colour, s.skip(n as int)) } else { Seq::empty() }
    }
}

pub proof fn lemma_runs<T>(rule: spec_fn(Seq<T>, T) -> bool, colour: spec_fn(Seq<T>) -> T, s: Seq<T>)
    ensures s.len() == 0 ==> runs(rule, colour, s).len() == 0, s.len() > 0 ==> ({
        let n = grow(rule, s, 1);
        &&& 1 <= n <= s.len() && n <= 255
        &&& runs(rule, colour, s) == seq![(n as u8, colour(s.take(n as int)))] + runs(rule, colour, s.skip(n as int))
        &&& runs(rule, colour, s)[0] == (n as u8, colour(s.take(n as int)))
        &&& runs(rule, colour, s).drop_first() == runs(rule, colour, s.skip(n as int))
    }),
{
    if s.len() == 0 { return; }
    lemma_grow(rule, s, 1);
    let n = grow(rule, s, 1);
    assert((seq![(n as u8, colour(s.take(n as int)))] + runs(rule, colour, s.skip(n as int))).drop_first() =~= runs(rule, colour, s.skip(n as int)));
}

pub open spec fn rep<T>(n: nat, c: T) -> Seq<T> { Seq::new(n, |i: int| c) }

/// the pixels that runs stand for
pub open spec fn expand<T>(r: Seq<(u8, T)>) -> Seq<T>
    decreases r.len(),
{
    if r.len() == 0 { Seq::empty() } else { rep(r[0].0 as nat, r[0].1) + expand(r.drop_first()) }
}

pub open spec fn exact_rule<T: PartialEq>() -> spec_fn(Seq<T>, T) -> bool { |run: Seq<T>, x: T| run[0].eq_spec(&x) }
pub open spec fn first_of<T>() -> spec_fn(Seq<T>) -> T { |run: Seq<T>| run[0] }

/// the runs of the exact rule stand for the pixels themselves
pub proof fn lemma_exact(s: Seq<Rgb<u8>>)
    ensures expand(runs(exact_rule(), first_of(), s)) == s,
    decreases s.len(),
{
    let rule = exact_rule::<Rgb<u8>>();
    if s.len() > 0 {
        lemma_runs(rule, first_of(), s);
        let n = grow(rule, s, 1);
        lemma_exact(s.skip(n as int));
        lemma_grow_equal(s, 1);
        assert(rep(n, s[0]) =~= s.take(n as int));
        assert(s =~= s.take(n as int) + s.skip(n as int));
    } else {
        assert(s =~= Seq::empty());
    }
}

pub proof fn lemma_eq(a: Rgb<u8>, b: Rgb<u8>)
    ensures a.eq_spec(&b) <==> a == b,
{
    if a.eq_spec(&b) { assert(a.0 =~= b.0); }
}

pub proof fn lemma_grow_equal(s: Seq<Rgb<u8>>, k: nat)
    requires 1 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] == s[0],
    ensures forall|i: int| 0 <= i < grow(exact_rule(), s, k) ==> #[trigger] s[i] == s[0],
    decreases s.len() - k,
{
    let rule = exact_rule::<Rgb<u8>>();
    if k < s.len() && k < 255 && rule(s.take(k as int), s[k as int]) {
        lemma_eq(s.take(k as int)[0], s[k as int]);
        lemma_grow_equal(s, k + 1);
    }
}

@@top
pub proof fn lemma_grow_rule<T>(rule: spec_fn(Seq<T>, T) -> bool, s: Seq<T>, k: nat)
    requires 1 <= k <= s.len(), k <= 255,
    ensures
        forall|j: int| k <= j < grow(rule, s, k) ==> rule(s.take(j), #[trigger] s[j]),
        grow(rule, s, k) == 255 || grow(rule, s, k) == s.len() || !rule(s.take(grow(rule, s, k) as int), s[grow(rule, s, k) as int]),
    decreases s.len() - k,
{
    if k < s.len() && k < 255 && rule(s.take(k as int), s[k as int]) { lemma_grow_rule(rule, s, k + 1); }
}

/// where the i-th run starts
pub open spec fn offset<T>(r: Seq<(u8, T)>, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { offset(r, i - 1) + r[i - 1].0 }
}

/// r[i] is a run of n pixels of s from a: it carries their colour, each but the first joined by the
/// rule, and it ends at 255 pixels, at the end, or before a pixel that may not join
pub open spec fn is_run<T>(rule: spec_fn(Seq<T>, T) -> bool, colour: spec_fn(Seq<T>) -> T, s: Seq<T>, a: int, run: (u8, T)) -> bool {
    let n = run.0 as int;
    &&& 1 <= n && 0 <= a && a + n <= s.len()
    &&& run.1 == colour(s.subrange(a, a + n))
    &&& forall|k: int| 1 <= k < n ==> rule(s.subrange(a, a + k), #[trigger] s[a + k])
    &&& n == 255 || a + n == s.len() || !rule(s.subrange(a, a + n), s[a + n])
}

pub proof fn lemma_offset<T>(r: Seq<(u8, T)>, i: int)
    requires 0 < i <= r.len(),
    ensures offset(r, i) == r[0].0 + offset(r.drop_first(), i - 1),
    decreases i,
{
    if i > 1 { lemma_offset(r, i - 1); assert(r.drop_first()[i - 2] == r[i - 1]); } else { assert(offset(r, 0) == 0); assert(offset(r.drop_first(), 0) == 0); }
}

pub proof fn lemma_run_shift<T>(rule: spec_fn(Seq<T>, T) -> bool, colour: spec_fn(Seq<T>) -> T, s: Seq<T>, n: int, a: int, run: (u8, T))
    requires is_run(rule, colour, s.skip(n), a, run), 0 <= n <= s.len(),
    ensures is_run(rule, colour, s, n + a, run),
{
    let t = s.skip(n);
    let m = run.0 as int;
    assert(t.subrange(a, a + m) =~= s.subrange(n + a, n + a + m));
    assert forall|k: int| 1 <= k < m implies rule(s.subrange(n + a, n + a + k), #[trigger] s[n + a + k]) by {
        assert(t.subrange(a, a + k) =~= s.subrange(n + a, n + a + k));
        assert(t[a + k] == s[n + a + k]);
    }
    if m != 255 && n + a + m != s.len() { assert(t[a + m] == s[n + a + m]); }
}

pub proof fn lemma_run_first<T>(rule: spec_fn(Seq<T>, T) -> bool, colour: spec_fn(Seq<T>) -> T, s: Seq<T>)
    requires s.len() > 0,
    ensures ({
        let n = grow(rule, s, 1);
        is_run(rule, colour, s, 0, (n as u8, colour(s.take(n as int))))
    }),
{
    let n = grow(rule, s, 1) as int;
    lemma_grow(rule, s, 1);
    lemma_grow_rule(rule, s, 1);
    assert(s.subrange(0, n) =~= s.take(n));
    assert forall|k: int| 1 <= k < n implies rule(s.subrange(0, 0 + k), #[trigger] s[0 + k]) by { assert(s.subrange(0, k) =~= s.take(k)); }
}

/// the runs cover the pixels exactly
/// the first run, and the others
#[verifier::rlimit(60)]
pub proof fn lemma_head<T>(rule: spec_fn(Seq<T>, T) -> bool, colour: spec_fn(Seq<T>) -> T, s: Seq<T>)
    ensures s.len() == 0 ==> runs(rule, colour, s).len() == 0, s.len() > 0 ==> ({
        let n = grow(rule, s, 1);
        &&& 1 <= n <= s.len() && n <= 255
        &&& runs(rule, colour, s).len() > 0
        &&& runs(rule, colour, s)[0] == (n as u8, colour(s.take(n as int)))
        &&& runs(rule, colour, s).drop_first() == runs(rule, colour, s.skip(n as int))
    }),
{
    hide(runs);
    hide(grow);
    lemma_runs(rule, colour, s);
}

#[verifier::rlimit(60)]
pub proof fn lemma_nth_run<T>(rule: spec_fn(Seq<T>, T) -> bool, colour: spec_fn(Seq<T>) -> T, s: Seq<T>, i: int)
    requires
        s.len() > 0, 0 <= i < runs(rule, colour, s).len(),
        ({
            let t = s.skip(grow(rule, s, 1) as int);
            let q = runs(rule, colour, t);
            forall|j: int| 0 <= j < q.len() ==> is_run(rule, colour, t, offset(q, j), #[trigger] q[j])
        }),
    ensures is_run(rule, colour, s, offset(runs(rule, colour, s), i), runs(rule, colour, s)[i]),
{
    hide(runs);
    hide(is_run);
    hide(grow);
    let r = runs(rule, colour, s);
    lemma_head(rule, colour, s);
    let n = grow(rule, s, 1) as int;
    let t = s.skip(n);
    let q = r.drop_first();
    if i == 0 {
        lemma_run_first(rule, colour, s);
        assert(offset(r, 0) == 0);
    } else {
        lemma_offset(r, i);
        assert(r[i] == q[i - 1]);
        assert(is_run(rule, colour, t, offset(q, i - 1), q[i - 1]));
        lemma_run_shift(rule, colour, s, n, offset(q, i - 1), q[i - 1]);
    }
}

#[verifier::rlimit(60)]
pub proof fn theorem_runs<T>(rule: spec_fn(Seq<T>, T) -> bool, colour: spec_fn(Seq<T>) -> T, s: Seq<T>)
    ensures ({
        let r = runs(rule, colour, s);
        &&& offset(r, r.len() as int) == s.len()
        &&& forall|i: int| 0 <= i < r.len() ==> is_run(rule, colour, s, offset(r, i), #[trigger] r[i])
    }),
    decreases s.len(),
{
    hide(runs);
    hide(is_run);
    hide(grow);
    let r = runs(rule, colour, s);
    lemma_head(rule, colour, s);
    assert(offset(r, 0) == 0);
    if s.len() > 0 {
        let n = grow(rule, s, 1) as int;
        let t = s.skip(n);
        let q = r.drop_first();
        theorem_runs(rule, colour, t);
        lemma_offset(r, r.len() as int);
        assert forall|i: int| 0 <= i < r.len() implies is_run(rule, colour, s, offset(r, i), #[trigger] r[i]) by {
            lemma_nth_run(rule, colour, s, i);
        }
    }
}

pub proof fn lemma_neighbour(s: Seq<Rgb<u8>>, a: int, p: (u8, Rgb<u8>), q: (u8, Rgb<u8>))
    requires is_run(exact_rule(), first_of(), s, a, p), is_run(exact_rule(), first_of(), s, a + p.0, q),
    ensures p.0 == 255 || p.1 != q.1,
{
    let n = p.0 as int;
    lemma_eq(s[a], s[a + n]);
    assert(s.subrange(a, a + n)[0] == s[a]);
    assert(s.subrange(a + n, a + n + q.0)[0] == s[a + n]);
}

/// with the exact rule, neighbouring runs differ unless the first is full
#[verifier::rlimit(60)]
pub proof fn theorem_neighbours(s: Seq<Rgb<u8>>, i: int)
    requires 0 <= i, i + 1 < runs(exact_rule(), first_of(), s).len(),
    ensures ({
        let r = runs(exact_rule(), first_of(), s);
        r[i].0 == 255 || r[i].1 != r[i + 1].1
    }),
{
    hide(runs);
    hide(is_run);
    let rule = exact_rule::<Rgb<u8>>();
    let r = runs(rule, first_of(), s);
    theorem_runs(rule, first_of(), s);
    assert(is_run(rule, first_of(), s, offset(r, i), r[i]));
    assert(is_run(rule, first_of(), s, offset(r, i + 1), r[i + 1]));
    assert(offset(r, i + 1) == offset(r, i) + r[i].0);
    lemma_neighbour(s, offset(r, i), r[i], r[i + 1]);
}

@@inside Criteria
    /// what the type stands for has a meaning
    spec fn lawful() -> bool;
    /// which pixel may join the run so far
    spec fn rule(&self) -> spec_fn(Seq<T>, T) -> bool;
    spec fn colour() -> spec_fn(Seq<T>) -> T;
    /// this is the state after the run so far
    spec fn holds(&self, run: Seq<T>) -> bool;
@@fn Criteria::start_sequence
@@spec
    ensures final(self).rule() == old(self).rule(), final(self).holds(seq![start_val]),
@@fn Criteria::accept ret r
@@spec
    requires exists|run: Seq<T>| #[trigger] old(self).holds(run) && run.len() < 255,
    ensures
        final(self).rule() == old(self).rule(),
        Self::lawful() ==> forall|run: Seq<T>| #[trigger] old(self).holds(run) ==> r == (old(self).rule())(run, *x),
        forall|run: Seq<T>| #[trigger] old(self).holds(run) && run.len() < 255 ==> final(self).holds(if r { run.push(*x) } else { run }),
@@fn Criteria::end_repetition ret r
@@spec
    requires exists|run: Seq<T>| #[trigger] old(self).holds(run) && run.len() <= 255,
    ensures
        final(self).rule() == old(self).rule(),
        Self::lawful() ==> forall|run: Seq<T>| #[trigger] old(self).holds(run) && run.len() <= 255 ==> r == Self::colour()(run),

@@inside <Exact as Criteria<T>>
    open spec fn lawful() -> bool { T::obeys_eq_spec() }
    open spec fn rule(&self) -> spec_fn(Seq<T>, T) -> bool { exact_rule() }
    open spec fn colour() -> spec_fn(Seq<T>) -> T { first_of() }
    open spec fn holds(&self, run: Seq<T>) -> bool { run.len() > 0 && self.curr_val == Some(run[0]) }
@@fn Exact::new ret r
@@spec
    ensures r.curr_val is None,
@@fn <Exact as Criteria<T>>::start_sequence
@@start
    proof { let _ = |r: Seq<T>| self.holds(r); let _ = self.rule(); }
@@fn <Exact as Criteria<T>>::accept
@@start
    proof { let _ = |r: Seq<T>| self.holds(r); let _ = self.rule(); let _ = Self::lawful(); }
@@fn <Exact as Criteria<T>>::end_repetition
@@start
    proof { let _ = |r: Seq<T>| self.holds(r); let _ = self.rule(); let _ = Self::colour(); }

@@top
pub open spec fn last_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(v) => seq![v], None => Seq::empty() } }

@@bottom
impl<I: Iterator<Item=T>, T, S: Criteria<T>> vstd::std_specs::iter::IteratorSpecImpl for AbstractRle<I, S, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.iter.obeys_prophetic_iter_laws() && S::lawful() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<(u8, T)> { runs(self.criteria.rule(), S::colour(), last_seq(self.last) + self.iter.remaining()) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.iter.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<(u8, T)> { None }
}

@@fn AbstractRle::new ret r
@@spec
    ensures r.iter == iter, r.criteria == init_state, r.last is None,
@@fn <AbstractRle as Iterator>::next ret r
@@rewrite self.last .take() .or_else(|| self.iter.next())?; ==> (match self.last.take() { Some(v) => Some(v), None => self.iter.next() })?; -- Option::or_else written out
@@start
    let ghost lawful = self.iter.obeys_prophetic_iter_laws() && S::lawful();
    let ghost s = last_seq(self.last) + self.iter.remaining();
    let ghost rule = self.criteria.rule();
    let ghost wrn = self.iter.will_return_none();
    proof { lemma_runs(rule, S::colour(), s); }
@@before let mut count = 1;
    proof { if lawful { assert(s[0] == next_val); assert(self.iter.remaining() =~= s.skip(1)); } }
@@before while let Some(x)
    proof { assert(self.criteria.holds(seq![next_val])); if lawful { assert(s.take(1) =~= seq![next_val]); } }
@@loop 0
    invariant_except_break
        1 <= count < 255,
        self.criteria.rule() == rule,
        self.iter.obeys_prophetic_iter_laws() == old(self).iter.obeys_prophetic_iter_laws(),
        self.last is None,
        exists|run: Seq<T>| #[trigger] self.criteria.holds(run) && run.len() == count,
        lawful ==> {
            &&& count <= s.len()
            &&& self.criteria.holds(s.take(count as int))
            &&& self.iter.remaining() == s.skip(count as int)
            &&& self.iter.will_return_none() == wrn
            &&& grow(rule, s, 1) == grow(rule, s, count as nat)
        },
    invariant
        lawful == (old(self).iter.obeys_prophetic_iter_laws() && S::lawful()),
    ensures
        1 <= count <= 255,
        self.criteria.rule() == rule,
        self.iter.obeys_prophetic_iter_laws() == old(self).iter.obeys_prophetic_iter_laws(),
        exists|run: Seq<T>| #[trigger] self.criteria.holds(run) && run.len() <= 255,
        lawful ==> {
            &&& count <= s.len()
            &&& self.criteria.holds(s.take(count as int))
            &&& last_seq(self.last) + self.iter.remaining() == s.skip(count as int)
            &&& self.iter.will_return_none() == wrn
            &&& count == grow(rule, s, 1)
        },
    decreases 255 - count,
@@bodystart 0
    let ghost c0 = count;
    let ghost run0 = choose|run: Seq<T>| #[trigger] self.criteria.holds(run) && run.len() == count;
    proof { if lawful { assert(x == s[c0 as int]); assert(self.iter.remaining() =~= s.skip(c0 + 1)); } }
@@after count += 1;
    proof { if lawful { assert(s.take(count as int) =~= s.take(c0 as int).push(x)); } }
@@before break; #0
    proof { reveal_with_fuel(grow, 3); if lawful { assert(last_seq(self.last) + self.iter.remaining() =~= s.skip(count as int)); } }
@@before break; #1
    proof { assert(self.criteria.holds(run0)); if lawful { assert(last_seq(self.last) + self.iter.remaining() =~= s.skip(c0 as int)); } }

@@fn rle_exact ret r
@@spec
    requires iter.obeys_prophetic_iter_laws(), T::obeys_eq_spec(),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none() == iter.will_return_none(),
        r.remaining() == runs(exact_rule(), first_of(), iter.remaining()),
@@tail
    proof { let _ = vp_r.obeys_prophetic_iter_laws(); assert(last_seq(None::<T>) + iter.remaining() =~= iter.remaining()); }

@@# running averages

@@top
/// the sum of a channel
pub open spec fn chan(run: Seq<Rgb<u8>>, c: int) -> int
    decreases run.len(),
{
    if run.len() == 0 { 0 } else { chan(run.drop_last(), c) + run.last().0[c] }
}

pub proof fn lemma_chan(run: Seq<Rgb<u8>>, c: int)
    requires 0 <= c < 3,
    ensures 0 <= chan(run, c) <= 255 * run.len(),
    decreases run.len(),
{
    if run.len() > 0 { lemma_chan(run.drop_last(), c); }
}

pub proof fn lemma_chan_push(run: Seq<Rgb<u8>>, x: Rgb<u8>, c: int)
    ensures chan(run.push(x), c) == chan(run, c) + x.0[c],
{
    assert(run.push(x).drop_last() =~= run);
}

/// the mean of a run, as a point
pub open spec fn mean(run: Seq<Rgb<u8>>) -> [f64; 3] {
    [f_div(f_int(chan(run, 0)), f_int(run.len() as int)), f_div(f_int(chan(run, 1)), f_int(run.len() as int)), f_div(f_int(chan(run, 2)), f_int(run.len() as int))]
}

pub open spec fn point(c: Rgb<u8>) -> [f64; 3] { [f_int(c.0[0] as int), f_int(c.0[1] as int), f_int(c.0[2] as int)] }

/// how far apart two points are
pub open spec fn far(a: [f64; 3], b: [f64; 3]) -> f64 {
    f_sqrt(f_add(f_add(f_add(f_int(0), f_square(f_sub(a[0], b[0]))), f_square(f_sub(a[1], b[1]))), f_square(f_sub(a[2], b[2]))))
}

/// a pixel may join a run whose mean it is near to
pub open spec fn approx_rule(d: f64) -> spec_fn(Seq<Rgb<u8>>, Rgb<u8>) -> bool { |run: Seq<Rgb<u8>>, x: Rgb<u8>| f_le(far(mean(run), point(x)), d) }

/// the mean of a channel, rounded half up
pub open spec fn rounded(run: Seq<Rgb<u8>>, c: int) -> u8 { ((2 * chan(run, c) + run.len()) / (2 * run.len() as int)) as u8 }

pub open spec fn mean_of() -> spec_fn(Seq<Rgb<u8>>) -> Rgb<u8> { |run: Seq<Rgb<u8>>| Rgb([rounded(run, 0), rounded(run, 1), rounded(run, 2)]) }

@@inside RunningAvg
    pub open spec fn of(&self, run: Seq<Rgb<u8>>) -> bool {
        &&& self.count == run.len() && run.len() > 0
        &&& forall|c: int| 0 <= c < 3 ==> #[trigger] self.sum[c] == f_int(chan(run, c))
    }
@@fn RunningAvg::new ret r
@@spec
    ensures r.of(seq![*init_color]),
@@start
    proof { lemma_chan_one(*init_color); }

@@top
pub proof fn lemma_chan_one(x: Rgb<u8>)
    ensures forall|c: int| 0 <= c < 3 ==> #[trigger] chan(seq![x], c) == x.0[c],
{
    assert forall|c: int| 0 <= c < 3 implies #[trigger] chan(seq![x], c) == x.0[c] by {
        assert(seq![x].drop_last() =~= Seq::<Rgb<u8>>::empty());
        assert(seq![x].last() == x);
        assert(chan(Seq::<Rgb<u8>>::empty(), c) == 0);
    }
}

@@fn RunningAvg::add
@@spec
    requires exists|run: Seq<Rgb<u8>>| #[trigger] old(self).of(run) && run.len() < 255,
    ensures forall|run: Seq<Rgb<u8>>| #[trigger] old(self).of(run) && run.len() < 255 ==> final(self).of(run.push(*x)),
@@rewrite self.sum[i] += x.0[i] as f64; ==> self.sum[i] = crate::fl::add(self.sum[i], crate::fl::of_u8(x.0[i])); -- f64 operations as functions
@@before for i in 0..CHANNEL_COUNT
    let ghost start = *self;
@@loop 0
    invariant
        self.count == start.count, start.sum == old(self).sum, start.count == old(self).count || start.count == old(self).count + 1,
        forall|j: int| 0 <= j < i ==> #[trigger] self.sum[j] == f_add(old(self).sum[j], f_int(x.0[j] as int)),
        forall|j: int| i <= j < 3 ==> #[trigger] self.sum[j] == old(self).sum[j],
@@finish
    proof {
        assert forall|run: Seq<Rgb<u8>>| #[trigger] old(self).of(run) && run.len() < 255 implies self.of(run.push(*x)) by {
            assert forall|c: int| 0 <= c < 3 implies #[trigger] self.sum[c] == f_int(chan(run.push(*x), c)) by {
                lemma_chan(run, c);
                lemma_chan_push(run, *x, c);
                axiom_add(chan(run, c), x.0[c] as int);
                assert(old(self).sum[c] == f_int(chan(run, c)));
            }
        }
    }
@@fn RunningAvg::avg_f64 ret r
@@spec
    ensures forall|run: Seq<Rgb<u8>>| #[trigger] self.of(run) ==> r == mean(run),
@@rewrite self.sum .map(|x| x / (self.count as f64)) ==> crate::rt::arr3_map(self.sum, |x: f64| -> (y: f64) ensures y == f_div(x, f_int(self.count as int)) { crate::fl::div(x, crate::fl::of_usize(self.count)) }) -- array::map written out; f64 operations as functions; closure given its contract
@@tail
    proof {
        assert forall|run: Seq<Rgb<u8>>| #[trigger] self.of(run) implies vp_r == mean(run) by {
            assert(self.sum[0] == f_int(chan(run, 0)) && self.sum[1] == f_int(chan(run, 1)) && self.sum[2] == f_int(chan(run, 2)));
            assert(vp_r =~= mean(run));
        }
    }
@@fn RunningAvg::avg ret r
@@spec
    requires exists|run: Seq<Rgb<u8>>| #[trigger] self.of(run) && run.len() <= 255,
    ensures forall|run: Seq<Rgb<u8>>| #[trigger] self.of(run) && run.len() <= 255 ==> r == mean_of()(run),
@@before let safe_convert
    proof {
        let run = choose|run: Seq<Rgb<u8>>| #[trigger] self.of(run) && run.len() <= 255;
        lemma_chan(run, 0); lemma_chan(run, 1); lemma_chan(run, 2);
        axiom_mean(chan(run, 0), run.len() as int);
        axiom_mean(chan(run, 1), run.len() as int);
        axiom_mean(chan(run, 2), run.len() as int);
    }
@@rewrite |x: f64| { ==> |x: f64| -> (y: u8) requires f_le(x, f_int(255)) ensures y == f_to_u8(x) { -- closure given its contract
@@rewrite assert!(x <= u8::MAX as f64, "{}", x); ==> crate::rt::rt_assert(crate::fl::le(x, crate::fl::of_u8(u8::MAX))); -- assertion as an obligation; f64 operations as functions
@@rewrite x.round() as u8 ==> crate::fl::round_u8(x) -- f64 operations as functions
@@rewrite color_f64.map(safe_convert) ==> crate::rt::arr3_map(color_f64, safe_convert) -- array::map written out
@@before return color_u8;
    proof {
        assert forall|run: Seq<Rgb<u8>>| #[trigger] self.of(run) && run.len() <= 255 implies color_u8 == mean_of()(run) by {
            lemma_chan(run, 0); lemma_chan(run, 1); lemma_chan(run, 2);
            axiom_mean(chan(run, 0), run.len() as int);
            axiom_mean(chan(run, 1), run.len() as int);
            axiom_mean(chan(run, 2), run.len() as int);
            lemma_rounded(chan(run, 0), run.len() as int); lemma_rounded(chan(run, 1), run.len() as int); lemma_rounded(chan(run, 2), run.len() as int);
            assert(color_u8.0 =~= mean_of()(run).0);
        }
    }

@@top
pub proof fn lemma_rounded(s: int, n: int)
    requires 0 < n, 0 <= s <= 255 * n,
    ensures 0 <= (2 * s + n) / (2 * n) <= 255,
{
    assert(0 <= (2 * s + n) / (2 * n) <= 255) by (nonlinear_arith) requires 0 < n, 0 <= s <= 255 * n;
}

@@fn as_f64 ret r
@@spec
    ensures r == point(*color),
@@rewrite color.0 .map(|x| x as f64) ==> crate::rt::arr3_map(color.0, |x: u8| -> (y: f64) ensures y == f_int(x as int) { crate::fl::of_u8(x) }) -- array::map written out; f64 operations as functions; closure given its contract
@@tail
    proof { assert(vp_r =~= point(*color)); }

@@inside <[f64;CHANNEL_COUNT] as Distance>
    open spec fn distance(&self, other: &Self) -> f64 { far(*self, *other) }
@@fn <[f64;CHANNEL_COUNT] as Distance>::dist
@@rewrite let mut dist = 0.0; ==> let mut dist = crate::fl::zero(); -- f64 operations as functions
@@rewrite dist += (self[i] - other[i]).powi(2); ==> dist = crate::fl::add(dist, crate::fl::square(crate::fl::sub(self[i], other[i]))); -- f64 operations as functions
@@rewrite dist.sqrt() ==> crate::fl::sqrt(dist) -- f64 operations as functions
@@loop 0
    invariant
        dist == part(*self, *other, i as nat),
@@bodystart 0
    proof { reveal_with_fuel(part, 2); }
@@before dist.sqrt()
    proof { reveal_with_fuel(part, 4); }
@@top
pub open spec fn part(a: [f64; 3], b: [f64; 3], n: nat) -> f64
    decreases n,
{
    if n == 0 { f_int(0) } else { f_add(part(a, b, (n - 1) as nat), f_square(f_sub(a[n - 1], b[n - 1]))) }
}

@@fn Approx::new ret r
@@spec
    ensures r.allow == allow,
@@inside <Approx as Criteria<Rgb<u8>>>
    open spec fn lawful() -> bool { true }
    open spec fn rule(&self) -> spec_fn(Seq<Rgb<u8>>, Rgb<u8>) -> bool { approx_rule(self.allow) }
    open spec fn colour() -> spec_fn(Seq<Rgb<u8>>) -> Rgb<u8> { mean_of() }
    open spec fn holds(&self, run: Seq<Rgb<u8>>) -> bool { self.running_avg is Some && self.running_avg->Some_0.of(run) }
@@fn <Approx as Criteria<Rgb<u8>>>::start_sequence
@@start
    proof { lemma_chan_one(start_val); let _ = |r: Seq<Rgb<u8>>| self.holds(r); let _ = self.rule(); }
@@fn <Approx as Criteria<Rgb<u8>>>::accept
@@rewrite curr_f64.dist(&new_f64) <= self.allow ==> crate::fl::le(curr_f64.dist(&new_f64), self.allow) -- f64 operations as functions
@@start
    proof { let _ = |r: Seq<Rgb<u8>>| self.holds(r); let _ = self.rule(); let _ = Self::lawful(); let run = choose|run: Seq<Rgb<u8>>| #[trigger] self.holds(run) && run.len() < 255; assert(self.holds(run)); assert(self.running_avg->Some_0.of(run)); }
@@fn <Approx as Criteria<Rgb<u8>>>::end_repetition
@@start
    proof { let _ = |r: Seq<Rgb<u8>>| self.holds(r); let _ = self.rule(); let _ = Self::colour(); let run = choose|run: Seq<Rgb<u8>>| #[trigger] self.holds(run) && run.len() <= 255; assert(self.running_avg->Some_0.of(run)); }
@@fn rle_approx ret r
@@spec
    requires iter.obeys_prophetic_iter_laws(),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none() == iter.will_return_none(),
        r.remaining() == runs(approx_rule(d), mean_of(), iter.remaining()),
@@tail
    proof { let _ = vp_r.obeys_prophetic_iter_laws(); assert(last_seq(None::<Rgb<u8>>) + iter.remaining() =~= iter.remaining()); }


@@# reading runs

@@top
pub open spec fn has_run(s: Seq<u8>) -> bool { <(u8, Rgb<u8>) as Deserialize>::plen(s) is Some }

pub open spec fn run_at(s: Seq<u8>) -> (u8, Rgb<u8>) { (s[0], Rgb([s[9], s[10], s[11]])) }

/// the pixels that the runs in a stream stand for
pub open spec fn unrle(s: Seq<u8>) -> Seq<Rgb<u8>>
    decreases s.len(),
{
    if has_run(s) && s.len() >= 12 { rep(run_at(s).0 as nat, run_at(s).1) + unrle(s.skip(12)) } else { Seq::empty() }
}

pub proof fn lemma_colour_at(s: Seq<u8>)
    ensures
        <Rgb<u8> as Deserialize>::plen(s) is Some ==> <Rgb<u8> as Deserialize>::plen(s) == Some(11nat) && s.len() >= 11,
        forall|c: Rgb<u8>| <Rgb<u8> as Deserialize>::plen(s) is Some && #[trigger] <Rgb<u8> as Deserialize>::pval(s, c) ==> c == Rgb([s[8], s[9], s[10]]),
{
    let t = s.skip(8);
    reveal_with_fuel(crate::ser::plen_n, 4);
    reveal_with_fuel(crate::ser::pval_n, 4);
    if <Rgb<u8> as Deserialize>::plen(s) is Some {
        assert(crate::ser::plen_n::<u8>(t, 3) is Some);
        assert(crate::ser::plen_n::<u8>(t, 0) == Some(0nat));
        assert(crate::ser::plen_n::<u8>(t, 1) == Some(1nat));
        assert(crate::ser::plen_n::<u8>(t, 2) == Some(2nat));
        assert(crate::ser::plen_n::<u8>(t, 3) == Some(3nat));
        assert(t.skip(2).len() >= 1);
        assert forall|c: Rgb<u8>| #[trigger] <Rgb<u8> as Deserialize>::pval(s, c) implies c == Rgb([s[8], s[9], s[10]]) by {
            let v = c.0@;
            assert(v.len() == 3);
            assert(v.drop_last().len() == 2);
            assert(v.drop_last().drop_last().len() == 1);
            assert(v.drop_last().drop_last().drop_last().len() == 0);
            assert(crate::ser::pval_n(t, v));
            assert(crate::ser::pval_n(t, v.drop_last()));
            assert(crate::ser::pval_n(t, v.drop_last().drop_last()));
            assert(v[2] == t.skip(2)[0]);
            assert(v[1] == t.skip(1)[0]);
            assert(v[0] == t.skip(0)[0]);
            assert(c.0 =~= [s[8], s[9], s[10]]);
        }
    }
}

pub proof fn lemma_run_at(s: Seq<u8>)
    ensures
        has_run(s) <==> s.len() > 0 && <Rgb<u8> as Deserialize>::plen(s.skip(1)) is Some,
        has_run(s) ==> s.len() >= 12 && s.skip(1).skip(11) == s.skip(12) && <Rgb<u8> as Deserialize>::plen(s.skip(1)) == Some(11nat),
        forall|c: Rgb<u8>| has_run(s) && #[trigger] <Rgb<u8> as Deserialize>::pval(s.skip(1), c) ==> c == run_at(s).1,
{
    if s.len() > 0 { lemma_colour_at(s.skip(1)); }
    if has_run(s) { assert(s.skip(1).skip(11) =~= s.skip(12)); }
}

pub proof fn lemma_rep_step<T>(n: nat, c: T, s: Seq<T>)
    requires n > 0,
    ensures (rep(n, c) + s)[0] == c, (rep(n, c) + s).drop_first() == rep((n - 1) as nat, c) + s,
{
    assert((rep(n, c) + s).drop_first() =~= rep((n - 1) as nat, c) + s);
}

@@bottom
impl<I: Iterator<Item = u8>> vstd::std_specs::iter::IteratorSpecImpl for RleDecoder<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<Rgb<u8>>;
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<Rgb<u8>> { None }
}
impl<I: Iterator<Item = u8>> crate::rt::Pull for RleDecoder<I> {
    open spec fn pullable(&self) -> bool { self.bytes.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn upto(&self) -> Seq<Rgb<u8>> { rep(self.count as nat, self.curr_color) + unrle(self.bytes.remaining()) }
    #[verifier::prophetic]
    open spec fn tame(&self, n: nat) -> bool { n <= self.count || counted(self.bytes.remaining(), (n - self.count) as nat) }
    fn pull(&mut self) -> (r: Option<Rgb<u8>>) {
        let ghost s = self.bytes.remaining();
        let ghost c = self.count as nat;
        let ghost any = exists|n: nat| n > 0 && #[trigger] self.tame(n);
        proof {
            lemma_counted(s);
            lemma_run_at(s);
            // next panics when the count it reads is zero: it is not
            assert(any && self.count == 0 && s.len() > 0 ==> s[0] > 0);
        }
        let r = self.next();
        r
    }
}
impl<I: Iterator<Item = u8>> crate::rt::Pull for DeserStream<I, Rgb<u8>> {
    open spec fn pullable(&self) -> bool { self.stream.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn upto(&self) -> Seq<Rgb<u8>> { colours(self.stream.remaining()) }
    #[verifier::prophetic]
    open spec fn tame(&self, n: nat) -> bool { true }
    fn pull(&mut self) -> (r: Option<Rgb<u8>>) { proof { lemma_colour_at(self.stream.remaining()); lemma_colours(self.stream.remaining()); } self.next() }
}
@@fn RleDecoder::new ret r
@@spec
    ensures r.bytes == iter, r.count == 0,
@@fn <RleDecoder as Iterator>::next ret r
@@spec
    ensures
        old(self).bytes.obeys_prophetic_iter_laws() ==> ({
            let u = rep(old(self).count as nat, old(self).curr_color) + unrle(old(self).bytes.remaining());
            &&& final(self).bytes.obeys_prophetic_iter_laws()
            &&& u.len() == 0 ==> r is None
            &&& u.len() > 0 ==> final(self).count == (if old(self).count > 0 { old(self).count } else { old(self).bytes.remaining()[0] }) - 1
                && final(self).bytes.remaining() == (if old(self).count > 0 { old(self).bytes.remaining() } else { old(self).bytes.remaining().skip(12) })
                && (old(self).count == 0 ==> old(self).bytes.remaining()[0] > 0 && has_run(old(self).bytes.remaining()))
            &&& u.len() > 0 ==> r == Some(u[0]) && rep(final(self).count as nat, final(self).curr_color) + unrle(final(self).bytes.remaining()) == u.drop_first()
        }),
@@start
    let ghost s = self.bytes.remaining();
    proof { class_invariant(self.bytes.obeys_prophetic_iter_laws()); lemma_run_at(s); lemma_rep_none(self.count as nat, self.curr_color, unrle(s)); lemma_rep_any(self.count as nat, self.curr_color, unrle(s)); }
@@before self.count -= 1;
    proof { assert(self.count > 0); if old(self).count == 0 { assert(self.count == s[0]); assert(self.curr_color == run_at(s).1); assert(self.bytes.remaining() == s.skip(12)); assert(has_run(s)); assert(unrle(s) == rep(run_at(s).0 as nat, run_at(s).1) + unrle(s.skip(12))); } }
@@rewrite assert!(self.count > 0); ==> proof { lemma_rep_any(run_at(s).0 as nat, run_at(s).1, unrle(s.skip(12))); } crate::rt::may_panic_unless(Ghost(self.count > 0), Ghost(self.count > 0)); -- a run of no pixels ends in a panic

@@top
/// no run of no pixels starts before n colours were delivered
pub open spec fn counted(s: Seq<u8>, n: nat) -> bool
    decreases s.len(),
{
    n == 0 || s.len() == 0 || (s[0] > 0 && (has_run(s) && s.len() >= 12 && n > s[0] ==> counted(s.skip(12), (n - s[0]) as nat)))
}

pub proof fn lemma_counted(s: Seq<u8>)
    ensures forall|n: nat| n > 0 && s.len() > 0 && #[trigger] counted(s, n) ==> s[0] > 0 && (has_run(s) && s.len() >= 12 && n > s[0] ==> counted(s.skip(12), (n - s[0]) as nat)),
{
}

/// the colours that a stream starts with
pub open spec fn colours(s: Seq<u8>) -> Seq<Rgb<u8>>
    decreases s.len(),
{
    if <Rgb<u8> as Deserialize>::plen(s) is Some && s.len() >= 11 { seq![Rgb([s[8], s[9], s[10]])] + colours(s.skip(11)) } else { Seq::empty() }
}

pub proof fn lemma_colours(s: Seq<u8>)
    ensures
        <Rgb<u8> as Deserialize>::plen(s) is None ==> colours(s).len() == 0,
        <Rgb<u8> as Deserialize>::plen(s) is Some ==> colours(s).len() > 0 && colours(s)[0] == Rgb([s[8], s[9], s[10]]) && colours(s).drop_first() == colours(s.skip(11)),
{
    lemma_colour_at(s);
    if <Rgb<u8> as Deserialize>::plen(s) is Some {
        assert((seq![Rgb([s[8], s[9], s[10]])] + colours(s.skip(11))).drop_first() =~= colours(s.skip(11)));
    }
}

@@top
pub proof fn lemma_rep_none<T>(n: nat, c: T, s: Seq<T>)
    ensures n == 0 ==> rep(n, c) + s == s,
{
    if n == 0 { assert(rep(n, c) + s =~= s); }
}

pub proof fn lemma_rep_any<T>(n: nat, c: T, s: Seq<T>)
    ensures n > 0 ==> (rep(n, c) + s).len() > 0 && (rep(n, c) + s)[0] == c && (rep(n, c) + s).drop_first() == rep((n - 1) as nat, c) + s,
{
    if n > 0 { lemma_rep_step(n, c, s); }
}

@@top
/// the runs that stand for the colours
pub open spec fn runs_for(d: f64, cs: Seq<Rgb<u8>>) -> Seq<(u8, Rgb<u8>)> {
    if f_is_zero(d) { runs(exact_rule(), first_of(), cs) } else { runs(approx_rule(d), mean_of(), cs) }
}

/// what follows the dimensions
pub open spec fn body_of(m: CompressionMethod, cs: Seq<Rgb<u8>>) -> Seq<u8> {
    match m { CompressionMethod::RLE(d) => ser_n(runs_for(d, cs)), CompressionMethod::Zip => pair_bytes(enc(singles(256), ser_n(cs))) }
}

/// the colours that are read from it
pub open spec fn read_of(m: CompressionMethod, s: Seq<u8>) -> Seq<Rgb<u8>> {
    match m { CompressionMethod::RLE(d) => unrle(s), CompressionMethod::Zip => colours(sdec(singles(256), s)) }
}

/// the colours that the decoded image has
pub open spec fn shown(m: CompressionMethod, cs: Seq<Rgb<u8>>) -> Seq<Rgb<u8>> {
    match m { CompressionMethod::RLE(d) => expand(runs_for(d, cs)), CompressionMethod::Zip => cs }
}

pub proof fn lemma_colour_ser(c: Rgb<u8>, tail: Seq<u8>)
    ensures
        c.ser().len() == 11, c.ser_ok(), <Rgb<u8> as Deserialize>::plen(c.ser() + tail) == Some(11nat),
        (c.ser() + tail).skip(11) == tail, Rgb([(c.ser() + tail)[8], (c.ser() + tail)[9], (c.ser() + tail)[10]]) == c,
{
    let v = c.0@;
    reveal_with_fuel(ser_n, 4);
    assert(v.len() == 3);
    crate::rt::lemma_le_len(3, 8);
    assert(v.drop_last().drop_last().drop_last() =~= Seq::<u8>::empty());
    assert(ser_n(v) =~= seq![v[0], v[1], v[2]]);
    let s = c.ser() + tail;
    assert(s[8] == v[0] && s[9] == v[1] && s[10] == v[2]);
    assert(Rgb([s[8], s[9], s[10]]).0 =~= c.0);
    <Rgb<u8> as RoundTrip>::rt(c, tail);
    assert(s.skip(11) =~= tail);
}

pub proof fn lemma_run_ser(x: (u8, Rgb<u8>), tail: Seq<u8>)
    ensures
        x.ser().len() == 12, x.ser_ok(), has_run(x.ser() + tail), run_at(x.ser() + tail) == x, (x.ser() + tail).skip(12) == tail,
        x.ser() == x.0.ser() + x.1.ser(),
{
    let s = x.ser() + tail;
    lemma_colour_ser(x.1, tail);
    <(u8, Rgb<u8>) as RoundTrip>::rt(x, tail);
    assert(s.skip(1) =~= x.1.ser() + tail);
    assert(s[9] == s.skip(1)[8] && s[10] == s.skip(1)[9] && s[11] == s.skip(1)[10]);
    assert(s.skip(12) =~= tail);
}

/// reading runs back
pub proof fn lemma_unrle(r: Seq<(u8, Rgb<u8>)>, tail: Seq<u8>)
    ensures unrle(flat_ser(r) + tail) == expand(r) + unrle(tail),
    decreases r.len(),
{
    if r.len() == 0 {
        assert(flat_ser(r) + tail =~= tail);
        assert(expand(r) + unrle(tail) =~= unrle(tail));
    } else {
        let t = flat_ser(r.drop_first()) + tail;
        lemma_run_ser(r[0], t);
        lemma_unrle(r.drop_first(), tail);
        assert(flat_ser(r) + tail =~= r[0].ser() + t);
        assert(expand(r) + unrle(tail) =~= rep(r[0].0 as nat, r[0].1) + (expand(r.drop_first()) + unrle(tail)));
    }
}

/// no run is empty
pub open spec fn full(r: Seq<(u8, Rgb<u8>)>) -> bool { forall|i: int| 0 <= i < r.len() ==> 1 <= (#[trigger] r[i]).0 }

pub proof fn lemma_unrle_cut(r: Seq<(u8, Rgb<u8>)>, k: int)
    requires full(r), 0 <= k < flat_ser(r).len(),
    ensures unrle(flat_ser(r).take(k)).len() < expand(r).len(),
    decreases r.len(),
{
    let rest = r.drop_first();
    let p = flat_ser(r).take(k);
    lemma_run_ser(r[0], Seq::empty());
    assert(1 <= r[0].0);
    assert(full(rest)) by { assert forall|i: int| 0 <= i < rest.len() implies 1 <= (#[trigger] rest[i]).0 by { assert(rest[i] == r[i + 1]); } }
    if k < 12 {
        crate::ser::lemma_prefix_refused(r[0], k);
        assert(p =~= r[0].ser().take(k));
    } else {
        let t = flat_ser(rest).take(k - 12);
        assert(p =~= r[0].ser() + t);
        lemma_run_ser(r[0], t);
        lemma_unrle_cut(rest, k - 12);
    }
}

pub proof fn lemma_colours_ser(cs: Seq<Rgb<u8>>, tail: Seq<u8>)
    ensures colours(flat_ser(cs) + tail) == cs + colours(tail),
    decreases cs.len(),
{
    if cs.len() == 0 {
        assert(flat_ser(cs) + tail =~= tail);
        assert(cs + colours(tail) =~= colours(tail));
    } else {
        let t = flat_ser(cs.drop_first()) + tail;
        lemma_colour_ser(cs[0], t);
        lemma_colours_ser(cs.drop_first(), tail);
        assert(flat_ser(cs) + tail =~= cs[0].ser() + t);
        assert(cs + colours(tail) =~= seq![cs[0]] + (cs.drop_first() + colours(tail)));
    }
}

pub proof fn lemma_colours_cut(cs: Seq<Rgb<u8>>, k: int)
    requires 0 <= k < flat_ser(cs).len(),
    ensures colours(flat_ser(cs).take(k)).len() < cs.len(),
    decreases cs.len(),
{
    let rest = cs.drop_first();
    let p = flat_ser(cs).take(k);
    lemma_colour_ser(cs[0], Seq::empty());
    if k < 11 {
        crate::ser::lemma_prefix_refused(cs[0], k);
        assert(p =~= cs[0].ser().take(k));
    } else {
        let t = flat_ser(rest).take(k - 11);
        assert(p =~= cs[0].ser() + t);
        lemma_colour_ser(cs[0], t);
        lemma_colours_cut(rest, k - 11);
    }
}

/// the counts of runs, whatever the rule, are from 1 to 255 and add up
pub proof fn lemma_runs_cover(rule: spec_fn(Seq<Rgb<u8>>, Rgb<u8>) -> bool, colour: spec_fn(Seq<Rgb<u8>>) -> Rgb<u8>, s: Seq<Rgb<u8>>)
    ensures full(runs(rule, colour, s)), expand(runs(rule, colour, s)).len() == s.len(),
    decreases s.len(),
{
    lemma_runs(rule, colour, s);
    if s.len() > 0 {
        let n = grow(rule, s, 1);
        lemma_runs_cover(rule, colour, s.skip(n as int));
        let r = runs(rule, colour, s);
        assert forall|i: int| 0 <= i < r.len() implies 1 <= (#[trigger] r[i]).0 by {
            if i > 0 { assert(r[i] == r.drop_first()[i - 1]); }
        }
    }
}

pub proof fn lemma_shown(m: CompressionMethod, cs: Seq<Rgb<u8>>)
    ensures
        shown(m, cs).len() == cs.len(),
        m is RLE ==> full(runs_for(m->RLE_0, cs)),
        (m is RLE ==> f_is_zero(m->RLE_0)) ==> shown(m, cs) == cs,
{
    if m is RLE {
        lemma_runs_cover(exact_rule(), first_of(), cs);
        lemma_runs_cover(approx_rule(m->RLE_0), mean_of(), cs);
        lemma_exact(cs);
    }
}

/// a complete body gives the colours, whatever follows
pub proof fn lemma_read(m: CompressionMethod, cs: Seq<Rgb<u8>>, tail: Seq<u8>)
    ensures
        read_of(m, body_of(m, cs) + tail).len() >= cs.len(),
        read_of(m, body_of(m, cs) + tail).take(cs.len() as int) == shown(m, cs),
{
    lemma_shown(m, cs);
    match m {
        CompressionMethod::RLE(d) => {
            crate::ser::lemma_flat_ser_n(runs_for(d, cs));
            lemma_unrle(runs_for(d, cs), tail);
        }
        CompressionMethod::Zip => {
            crate::ser::lemma_flat_ser_n(cs);
            crate::zip::dict::theorem_lossless_tail(ser_n(cs), tail);
            lemma_colours_ser(cs, sdec(after(singles(256), enc(singles(256), ser_n(cs))), tail));
        }
    }
    assert(read_of(m, body_of(m, cs) + tail).take(cs.len() as int) =~= shown(m, cs));
}

/// one cut short gives too few
pub proof fn lemma_read_cut(m: CompressionMethod, cs: Seq<Rgb<u8>>, k: int)
    requires 0 <= k < body_of(m, cs).len(),
    ensures read_of(m, body_of(m, cs).take(k)).len() < cs.len(),
{
    lemma_shown(m, cs);
    match m {
        CompressionMethod::RLE(d) => {
            crate::ser::lemma_flat_ser_n(runs_for(d, cs));
            lemma_unrle_cut(runs_for(d, cs), k);
        }
        CompressionMethod::Zip => {
            crate::ser::lemma_flat_ser_n(cs);
            crate::zip::dict::theorem_truncated(ser_n(cs), k);
            let x = sdec(singles(256), body_of(m, cs).take(k));
            lemma_colours_cut(cs, x.len() as int);
        }
    }
}

/// the answer to a stream
pub open spec fn answered(m: CompressionMethod, s: Seq<u8>, r: Option<Img>) -> bool {
    if <(u32, u32) as Deserialize>::plen(s) is None { r is None } else {
        exists|d: (u32, u32)| #[trigger] <(u32, u32) as Deserialize>::pval(s, d) && painted(d, read_of(m, s.skip(8)), r)
    }
}

pub open spec fn hilbert_file(m: CompressionMethod, img: Img, b: Seq<u8>) -> bool { b == img.dims().ser() + body_of(m, lin(img)) }

/// the decoded image: same dimensions, and these colours along the curve
pub open spec fn decoded(m: CompressionMethod, img: Img, r: Img) -> bool { r.dims() == img.dims() && lin(r) == shown(m, lin(img)) }

pub proof fn lemma_answers(m: CompressionMethod, s: Seq<u8>, r: Option<Img>)
    requires answered(m, s, r),
    ensures
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] hilbert_file(m, img, b) && s == #[trigger] (b + tail)
            ==> r is Some && decoded(m, img, r->Some_0) && ((m is RLE ==> f_is_zero(m->RLE_0)) ==> same(img, r->Some_0)),
        forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] hilbert_file(m, img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) ==> r is None,
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] hilbert_file(m, img, b) && s == #[trigger] (b + tail)
        implies r is Some && decoded(m, img, r->Some_0) && ((m is RLE ==> f_is_zero(m->RLE_0)) ==> same(img, r->Some_0)) by {
        let body = body_of(m, lin(img));
        lemma_dims(img.dims(), body + tail);
        assert(s =~= img.dims().ser() + (body + tail));
        lemma_lin(img);
        lemma_read(m, lin(img), tail);
        lemma_shown(m, lin(img));
        if r is Some { lemma_same(img, r->Some_0); }
    }
    assert forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] hilbert_file(m, img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) implies r is None by {
        let body = body_of(m, lin(img));
        lemma_dims(img.dims(), body);
        lemma_dims_cut(img.dims(), body, k);
        lemma_lin(img);
        if k >= 8 {
            lemma_dims(img.dims(), body.take(k - 8));
            lemma_read_cut(m, lin(img), k - 8);
        }
    }
}

/// the colours along the curve determine the image
pub proof fn lemma_same(a: Img, b: Img)
    ensures a.dims() == b.dims() && lin(a) == lin(b) ==> same(a, b),
{
    if a.dims() == b.dims() && lin(a) == lin(b) {
        lemma_px_len(a);
        lemma_px_len(b);
        lemma_along_injective(a.dims(), a.rgb(), b.rgb());
    }
}

@@inside <Hilbert as Codec>
    open spec fn encodes(&self, img: Img, b: Seq<u8>) -> bool { hilbert_file(self.compress, img, b) }
    open spec fn exact(&self) -> bool { self.compress is RLE ==> f_is_zero(self.compress->RLE_0) }
    open spec fn handles(&self, img: Img) -> bool { true }
    open spec fn faithful(&self, img: Img, out: Img) -> bool { true }
@@fn <Hilbert as Codec>::encode
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@rewrite hilbert::linearize(img).map(|px| $E) ==> crate::rt::map(hilbert::linearize(img), |px: Rgba<u8>| -> (c: Rgb<u8>) ensures c == px.rgb() { $E }) -- Iterator::map through its assumed contract; closure given its own
@@rewrite if *d == 0.0 => { ==> if vp_zero => { -- the guard evaluated before
@@before match &self.compress
    let vp_zero = match &self.compress { CompressionMethod::RLE(d) => crate::fl::is_zero(*d), CompressionMethod::Zip => false };
    proof { lemma_linr(img); assert(iter.remaining() =~= lin(*img)); lemma_lin(*img); }
    let ghost w0 = (*old(writer)).written();
    let ghost w1 = (*writer).written();
    let ghost f0 = (*old(writer)).infallible();
    let ghost m = self.compress;
    let ghost cs = lin(*img);
@@forwhile 0 todo_exact
@@forwhile 1 todo_approx
@@before for (count, color) in rle_exact(iter)
    let ghost all_exact = runs_for(m->RLE_0, cs);
    let ghost mut i: int = 0;
    proof { assert(all_exact.skip(0) =~= all_exact); assert(all_exact.take(0) =~= Seq::empty()); assert(w1 + ser_n(all_exact.take(0)) =~= w1); }
@@loop 0
    invariant_except_break
        0 <= i <= all_exact.len(), todo_exact.remaining() == all_exact.skip(i),
    invariant
        todo_exact.obeys_prophetic_iter_laws(), f0 == (*old(writer)).infallible(), f0 ==> (*writer).infallible(), 0 <= i <= all_exact.len(),
        (*writer).written() == w1 + ser_n(all_exact.take(i)),
    ensures i == all_exact.len(),
@@bodystart 0
    proof { lemma_skip_step(all_exact, i); lemma_run_ser(all_exact[i], Seq::empty()); lemma_colour_ser(color, Seq::empty()); lemma_ser_push(all_exact, i, w1); i = i + 1; }
@@before for (count, color) in rle_approx(iter, *d)
    let ghost all_approx = runs_for(m->RLE_0, cs);
    let ghost mut i: int = 0;
    proof { assert(all_approx.skip(0) =~= all_approx); assert(all_approx.take(0) =~= Seq::empty()); assert(w1 + ser_n(all_approx.take(0)) =~= w1); }
@@loop 1
    invariant_except_break
        0 <= i <= all_approx.len(), todo_approx.remaining() == all_approx.skip(i),
    invariant
        todo_approx.obeys_prophetic_iter_laws(), f0 == (*old(writer)).infallible(), f0 ==> (*writer).infallible(), 0 <= i <= all_approx.len(),
        (*writer).written() == w1 + ser_n(all_approx.take(i)),
    ensures i == all_approx.len(),
@@bodystart 1
    proof { lemma_skip_step(all_approx, i); lemma_run_ser(all_approx[i], Seq::empty()); lemma_colour_ser(color, Seq::empty()); lemma_ser_push(all_approx, i, w1); i = i + 1; }
@@rewrite SerStream::from_iter(iter) ==> { let vp_s = SerStream::from_iter(iter); proof { crate::ser::lemma_ser_stream::<Rgb<u8>, It<'_, Rgb<u8>>>(vp_s); } vp_s } -- names the stream
@@before Ok(())
    proof {
        if m is RLE { let all_runs = runs_for(m->RLE_0, cs); assert(all_runs.take(all_runs.len() as int) =~= all_runs); }
        assert(m is RLE && vp_zero ==> (*writer).written() =~= w1 + body_of(m, cs)); // rle_exact
        assert(m is RLE && !vp_zero ==> (*writer).written() =~= w1 + body_of(m, cs)); // rle_approx
        assert(m is Zip ==> (*writer).written() =~= w1 + body_of(m, cs)); // zip
        let b = img.dims().ser() + body_of(m, cs);
        assert((*writer).written() =~= w0 + b);
        assert(self.encodes(*img, b));
    }
@@fn <Hilbert as Codec>::decode ret r
@@spec
    ensures forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] hilbert_file(self.compress, img, b) && old(reader).remaining() == #[trigger] (b + tail)
        ==> r is Some && decoded(self.compress, img, r->Some_0),
@@start
    let ghost s0 = reader.remaining();
    proof { lemma_plen8(s0); lemma_unanswered(self.compress, s0); assert(s0.len() >= 8 ==> s0.skip(4).skip(4) =~= s0.skip(8)); }
@@before decode_any(dimensions, zip_colors)
    proof { assert(<(u32, u32) as Deserialize>::pval(s0, dimensions)); }
@@before decode_any(dimensions, rle_decode)
    proof {
        assert(<(u32, u32) as Deserialize>::pval(s0, dimensions));
        lemma_counts(self.compress, s0, dimensions);
        // no panic for a complete file or one cut short
        assert(forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] hilbert_file(self.compress, img, b) && s0 == #[trigger] (b + tail) ==> crate::rt::Pull::tame(&rle_decode, area(dimensions)));
        assert(forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] hilbert_file(self.compress, img, b) && 0 <= k < b.len() && s0 == #[trigger] b.take(k) ==> crate::rt::Pull::tame(&rle_decode, area(dimensions)));
    }
@@tail
    proof {
        assert(self.compress is RLE ==> answered(self.compress, s0, vp_r));
        assert(self.compress is Zip ==> answered(self.compress, s0, vp_r));
        lemma_answers(self.compress, s0, vp_r);
    }

@@top
pub proof fn lemma_counted_runs(r: Seq<(u8, Rgb<u8>)>, tail: Seq<u8>, n: nat)
    requires full(r), n <= expand(r).len(),
    ensures counted(flat_ser(r) + tail, n),
    decreases r.len(),
{
    if r.len() > 0 && n > 0 {
        let rest = r.drop_first();
        let t = flat_ser(rest) + tail;
        lemma_run_ser(r[0], t);
        assert(1 <= r[0].0);
        assert(full(rest)) by { assert forall|i: int| 0 <= i < rest.len() implies 1 <= (#[trigger] rest[i]).0 by { assert(rest[i] == r[i + 1]); } }
        assert(flat_ser(r) + tail =~= r[0].ser() + t);
        if n > r[0].0 { lemma_counted_runs(rest, tail, (n - r[0].0) as nat); }
    }
}

pub proof fn lemma_counted_cut(r: Seq<(u8, Rgb<u8>)>, k: int, n: nat)
    requires full(r), 0 <= k <= flat_ser(r).len(),
    ensures counted(flat_ser(r).take(k), n),
    decreases r.len(),
{
    if r.len() > 0 && n > 0 && k > 0 {
        let rest = r.drop_first();
        let p = flat_ser(r).take(k);
        lemma_run_ser(r[0], flat_ser(rest));
        assert(flat_ser(r)[0] == r[0].0);
        assert(p[0] == r[0].0);
        assert(1 <= r[0].0);
        assert(full(rest)) by { assert forall|i: int| 0 <= i < rest.len() implies 1 <= (#[trigger] rest[i]).0 by { assert(rest[i] == r[i + 1]); } }
        if k >= 12 && n > r[0].0 {
            lemma_run_ser(r[0], Seq::empty());
            assert(p.skip(12) =~= flat_ser(rest).take(k - 12));
            lemma_counted_cut(rest, k - 12, (n - r[0].0) as nat);
        }
    }
}

/// no complete file, nor one cut short, has a run of no pixels among the runs that are read
pub proof fn lemma_counts(m: CompressionMethod, s: Seq<u8>, d: (u32, u32))
    requires m is RLE,
    ensures
        <(u32, u32) as Deserialize>::plen(s) is Some && <(u32, u32) as Deserialize>::pval(s, d) ==> {
            &&& forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] hilbert_file(m, img, b) && s == #[trigger] (b + tail) ==> counted(s.skip(8), area(d))
            &&& forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] hilbert_file(m, img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) ==> counted(s.skip(8), area(d))
        },
{
    if <(u32, u32) as Deserialize>::plen(s) is Some && <(u32, u32) as Deserialize>::pval(s, d) {
        assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] hilbert_file(m, img, b) && s == #[trigger] (b + tail) implies counted(s.skip(8), area(d)) by {
            let r = runs_for(m->RLE_0, lin(img));
            lemma_dims(img.dims(), ser_n(r) + tail);
            assert(s =~= img.dims().ser() + (ser_n(r) + tail));
            lemma_lin(img);
            lemma_shown(m, lin(img));
            crate::ser::lemma_flat_ser_n(r);
            lemma_counted_runs(r, tail, area(d));
        }
        assert forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] hilbert_file(m, img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) implies counted(s.skip(8), area(d)) by {
            let r = runs_for(m->RLE_0, lin(img));
            lemma_dims(img.dims(), ser_n(r));
            lemma_dims_cut(img.dims(), ser_n(r), k);
            lemma_shown(m, lin(img));
            crate::ser::lemma_flat_ser_n(r);
            if k >= 8 {
                lemma_dims(img.dims(), ser_n(r).take(k - 8));
                lemma_counted_cut(r, k - 8, area(d));
            }
        }
    }
}

pub proof fn lemma_unanswered(m: CompressionMethod, s: Seq<u8>)
    ensures
        <(u32, u32) as Deserialize>::plen(s) is None ==> forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] hilbert_file(m, img, b) ==> s != #[trigger] (b + tail),
{
    if <(u32, u32) as Deserialize>::plen(s) is None { lemma_answers(m, s, None); }
}

pub proof fn lemma_plen8(s: Seq<u8>)
    ensures <(u32, u32) as Deserialize>::plen(s) is Some ==> <(u32, u32) as Deserialize>::plen(s) == Some(8nat),
{
}

pub proof fn lemma_ser_push(all: Seq<(u8, Rgb<u8>)>, i: int, w: Seq<u8>)
    ensures 0 <= i < all.len() ==> w + ser_n(all.take(i + 1)) == w + ser_n(all.take(i)) + all[i].0.ser() + all[i].1.ser(),
{
    if 0 <= i < all.len() {
        assert(all.take(i + 1).drop_last() =~= all.take(i));
        assert(all.take(i + 1).last() == all[i]);
        assert(w + ser_n(all.take(i + 1)) =~= w + ser_n(all.take(i)) + all[i].0.ser() + all[i].1.ser());
    }
}

@@grewrite fn decode_any<I: Iterator<Item = Rgb<u8>>> ==> fn decode_any<I: crate::rt::Pull<Item = Rgb<u8>>> -- the iterator up to its first None
@@fn <Hilbert as Codec>::decode/decode_any ret r
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@fattr #[verifier::loop_isolation(false)]
@@fattr #[verifier::allow_complex_invariants]
@@spec
    requires iter.pullable(),
    ensures painted(dimensions, iter.upto(), r),
@@forwhile 0 spots
@@rewrite iter.next()? ==> iter.pull()? -- pull is next, with the contract of Pull
@@start
    let ghost all = iter.upto();
    let ghost n = area(dimensions);
    let ghost tame0 = iter.tame(n);
    let ghost mut i: int = 0;
    proof { crate::zhang_hilbert::axiom_scan(dimensions); theorem_places(dimensions); assert(all.skip(0) =~= all); assert(places(dimensions).skip(0) =~= places(dimensions)); lemma_area(dimensions); }
@@loop 0
    invariant_except_break
        iter.pullable(), spots.obeys_prophetic_iter_laws(),
        i <= all.len(), iter.upto() == all.skip(i), tame0 ==> iter.tame((n - i) as nat), spots.remaining() == places(dimensions).skip(i),
    invariant
        0 <= i <= n, n == area(dimensions), places(dimensions).len() == n,
        forall|j: int| 0 <= j < places(dimensions).len() ==> (#[trigger] places(dimensions)[j]).0 < dimensions.0 && places(dimensions)[j].1 < dimensions.1,
        img_buffer.dims() == dimensions, img_buffer.px().len() == n, i <= all.len(),
        forall|j: int| 0 <= j < i ==> #[trigger] along(dimensions, img_buffer.px())[j] == all[j],
    ensures i == n,
@@bodystart 0
    let ghost px0 = img_buffer.px();
    proof { lemma_skip_step(places(dimensions), i); lemma_skip_step(all, i); assert(tame0 ==> iter.tame((n - i) as nat) && n - i > 0); }
@@bodyend 0
    proof { lemma_paint(dimensions, px0, i, all[i]); i = i + 1; }
@@before Some(img_buffer.into())
    proof { axiom_dynamic(img_buffer); assert(along(dimensions, img_buffer.px()) =~= all.take(n as int)); }

@@top
/// an image with these colours along the curve, or none when there are too few
pub open spec fn painted(d: (u32, u32), cs: Seq<Rgb<u8>>, r: Option<Img>) -> bool {
    match r {
        Some(img) => img.dims() == d && cs.len() >= area(d) && lin(img) == cs.take(area(d) as int),
        None => cs.len() < area(d),
    }
}

pub proof fn lemma_skip_step<T>(s: Seq<T>, i: int)
    ensures 0 <= i < s.len() ==> s.skip(i).len() > 0 && s.skip(i)[0] == s[i] && s.skip(i).drop_first() == s.skip(i + 1),
        0 <= i <= s.len() ==> s.skip(i).len() == s.len() - i,
{
    if 0 <= i < s.len() { assert(s.skip(i).drop_first() =~= s.skip(i + 1)); }
}

pub proof fn lemma_at_injective(w: int, x: int, y: int, v: int, u: int)
    requires y * w + x == u * w + v, 0 <= x < w, 0 <= v < w,
    ensures x == v, y == u,
{
    if y < u { assert((y + 1) * w <= u * w) by (nonlinear_arith) requires y + 1 <= u, w > 0; assert((y + 1) * w == y * w + w) by (nonlinear_arith); }
    if u < y { assert((u + 1) * w <= y * w) by (nonlinear_arith) requires u + 1 <= y, w > 0; assert((u + 1) * w == u * w + w) by (nonlinear_arith); }
}

/// painting a place leaves what was painted before
pub proof fn lemma_paint(d: (u32, u32), px: Seq<Rgb<u8>>, i: int, c: Rgb<u8>)
    requires 0 <= i < places(d).len(), px.len() == area(d),
    ensures ({
        let q = px.update(at(d, places(d)[i].0 as int, places(d)[i].1 as int), c);
        &&& along(d, q)[i] == c
        &&& forall|j: int| 0 <= j < i ==> #[trigger] along(d, q)[j] == along(d, px)[j]
    }),
{
    theorem_places(d);
    lemma_area(d);
    let p = places(d)[i];
    let q = px.update(at(d, p.0 as int, p.1 as int), c);
    assert(0 <= at(d, p.0 as int, p.1 as int) < area(d));
    assert forall|j: int| 0 <= j < i implies #[trigger] along(d, q)[j] == along(d, px)[j] by {
        let o = places(d)[j];
        assert(o != p);
        assert(0 <= at(d, o.0 as int, o.1 as int) < area(d));
        if at(d, o.0 as int, o.1 as int) == at(d, p.0 as int, p.1 as int) {
            let w = d.0 as int;
            lemma_at_injective(w, o.0 as int, o.1 as int, p.0 as int, p.1 as int);
            assert(false);
        }
    }
}

@@fn <Hilbert as Codec>::name
@@rewrite CompressionMethod::RLE(d) if *d == 0.0 => ==> CompressionMethod::RLE(d) if crate::fl::is_zero(*d) => -- f64 operations as functions
@@rewrite format!("hilbert-rle-approx_{}", d) ==> crate::rt::some_string() -- the text is not specified
@@fn <Hilbert as Codec>::is_lossless ret r
@@spec
    ensures r == self.exact(),
@@rewrite *d == 0.0 ==> crate::fl::is_zero(*d) -- f64 operations as functions

@@# differences

@@top
/// the differences between neighbours
pub open spec fn diffs(last: SignedColor, cs: Seq<Rgb<u8>>) -> Seq<SignedColor> {
    Seq::new(cs.len(), |i: int| sub_c(signed(cs[i]), if i == 0 { last } else { signed(cs[i - 1]) }))
}

/// the sum is a colour
pub open spec fn fits(last: SignedColor, d: SignedColor) -> bool {
    forall|i: int| 0 <= i < 3 ==> 0 <= #[trigger] last.0[i] + d.0[i] <= 255
}

pub proof fn lemma_sub_add(a: SignedColor, b: SignedColor)
    ensures in_range(a) && in_range(b) ==> sub_ok(a, b) && add_c(b, sub_c(a, b)) == a && fits(b, sub_c(a, b)),
{
    if in_range(a) && in_range(b) {
        assert(add_c(b, sub_c(a, b)).0 =~= a.0);
    }
}

pub proof fn lemma_signed(c: Rgb<u8>, d: Rgb<u8>)
    ensures in_range(signed(c)), signed(c) == signed(d) ==> c == d,
{
    if signed(c) == signed(d) {
        assert(signed(c).0[0] == signed(d).0[0] && signed(c).0[1] == signed(d).0[1] && signed(c).0[2] == signed(d).0[2]);
        assert(c.0 =~= d.0);
    }
}

/// a difference that leads from one colour to another
pub proof fn lemma_fits(last: SignedColor, d: SignedColor, c: SignedColor)
    requires fits(last, d), in_range(last), c == add_c(last, d),
    ensures in_range(c), d == sub_c(c, last), add_ok(last, d),
{
    assert(0 <= last.0[0] + d.0[0] <= 255 && 0 <= last.0[1] + d.0[1] <= 255 && 0 <= last.0[2] + d.0[2] <= 255);
    assert(sub_c(c, last).0 =~= d.0);
}

pub proof fn lemma_diffs_step(last: SignedColor, cs: Seq<Rgb<u8>>)
    ensures
        cs.len() == 0 ==> diffs(last, cs).len() == 0,
        cs.len() > 0 ==> diffs(last, cs)[0] == sub_c(signed(cs[0]), last) && diffs(last, cs).drop_first() == diffs(signed(cs[0]), cs.drop_first()),
{
    if cs.len() > 0 { assert(diffs(last, cs).drop_first() =~= diffs(signed(cs[0]), cs.drop_first())); }
}

pub open spec fn last_of(last: SignedColor, cs: Seq<Rgb<u8>>) -> SignedColor { if cs.len() == 0 { last } else { signed(cs.last()) } }

pub proof fn lemma_diffs_push(last: SignedColor, cs: Seq<Rgb<u8>>, c: Rgb<u8>)
    ensures diffs(last, cs.push(c)) == diffs(last, cs).push(sub_c(signed(c), last_of(last, cs))),
{
    assert(diffs(last, cs.push(c)) =~= diffs(last, cs).push(sub_c(signed(c), last_of(last, cs))));
}

/// the differences determine the colours
pub proof fn lemma_diffs_injective(last: SignedColor, a: Seq<Rgb<u8>>, b: Seq<Rgb<u8>>)
    requires in_range(last), a.len() == b.len(), diffs(last, a) == diffs(last, b),
    ensures a == b,
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_diffs_step(last, a);
        lemma_diffs_step(last, b);
        lemma_signed(a[0], b[0]);
        lemma_signed(b[0], a[0]);
        lemma_sub_add(signed(a[0]), last);
        lemma_sub_add(signed(b[0]), last);
        lemma_diffs_injective(signed(a[0]), a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    } else {
        assert(a =~= b);
    }
}

@@fn DiffStream::new ret r
@@spec
    ensures r.input == input, r.last == START,
@@bottom
impl<I: Iterator<Item=Rgb<u8>>> vstd::std_specs::iter::IteratorSpecImpl for DiffStream<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.input.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<SignedColor> { diffs(self.last, self.input.remaining()) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.input.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<SignedColor> { None }
}
@@fn <DiffStream as Iterator>::next
@@start
    proof { lemma_diffs_step(self.last, self.input.remaining()); class_invariant(in_range(self.last)); }
@@before let new_signed = c.into();
    proof { lemma_signed(c, c); lemma_sub_add(signed(c), self.last); }

@@fn FromDiff::new ret r
@@spec
    ensures r.last_color == START, r.diff_stream == diff_stream,
@@grewrite impl<I: Iterator<Item = SignedColor>> Iterator for FromDiff<I> ==> impl<B: Iterator<Item = Bit>> Iterator for FromDiff<DecStream<B, SignedColor>> -- the only instance
@@bottom
impl<B: Iterator<Item = Bit>> vstd::std_specs::iter::IteratorSpecImpl for FromDiff<DecStream<B, SignedColor>> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<Rgb<u8>>;
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<Rgb<u8>> { None }
}
@@fn <FromDiff as Iterator>::next ret r
@@spec
    ensures
        final(self).diff_stream.dec == old(self).diff_stream.dec,
        old(self).diff_stream.bits.obeys_prophetic_iter_laws() ==> final(self).diff_stream.bits.obeys_prophetic_iter_laws(),
        r is Some ==> final(self).last_color == signed(r->Some_0),
        old(self).diff_stream.bits.obeys_prophetic_iter_laws() && clone_is_eq::<SignedColor>() ==> match old(self).diff_stream.dec.trie {
            BinTrie::Leaf(d) => r is Some && d == sub_c(signed(r->Some_0), old(self).last_color),
            _ => if old(self).diff_stream.remaining().len() == 0 { r is None } else {
                &&& r is Some
                &&& final(self).diff_stream.remaining() == old(self).diff_stream.remaining().drop_first()
                &&& old(self).diff_stream.remaining()[0] == sub_c(signed(r->Some_0), old(self).last_color)
            },
        },
@@rewrite self.diff_stream .next() .map(|new_diff| { ==> match self.diff_stream.next() { None => None, Some(new_diff) => Some({ let ghost ok = fits(self.last_color, new_diff); crate::rt::may_panic_unless(Ghost(ok), Ghost(ok)); proof { class_invariant(in_range(self.last_color)); lemma_fits(self.last_color, new_diff, add_c(self.last_color, new_diff)); lemma_unsigned(add_c(self.last_color, new_diff)); } -- Option::map written out
@@rewrite new_signed.try_into() .unwrap() }) ==> crate::rt::unwrap_ok_if(Ghost(ok), new_signed.try_into()) }) } -- a sum that is no colour ends in a panic

@@inside <Delta as Codec>
    open spec fn encodes(&self, img: Img, b: Seq<u8>) -> bool { exists|rest: Seq<u8>| #[trigger] delta_file(img, b, rest) }
    open spec fn exact(&self) -> bool { true }
    open spec fn handles(&self, img: Img) -> bool { true }
    open spec fn faithful(&self, img: Img, out: Img) -> bool { true }
@@top
pub open spec fn delta_file(img: Img, b: Seq<u8>, rest: Seq<u8>) -> bool {
    with_dims(img, b, rest) && huf_encodes(diffs(START, lin(img)), rest)
}
@@fn <Delta as Codec>::encode
@@rewrite || { let hilbert = hilbert::linearize(img).map(|px| $E); DiffStream::new(hilbert) }; ==> || -> (r: DiffStream<It<'_, Rgb<u8>>>) ensures r.obeys_prophetic_iter_laws(), r.remaining() == diffs(START, linr(img)) { let hilbert = crate::rt::map(hilbert::linearize(img), |px: Rgba<u8>| -> (c: Rgb<u8>) ensures c == px.rgb() { $E }); proof { lemma_linr(img); assert(hilbert.remaining() =~= linr(img)); } DiffStream::new(hilbert) }; -- Iterator::map through its assumed contract; closures given theirs
@@start
    proof { assert(clone_is_eq::<SignedColor>()); lemma_lin(*img); lemma_area(img.dims()); axiom_signed_key(); assert(diffs(START, lin(*img)).len() == lin(*img).len()); }
@@before huf::encode_all
    proof { assert(crate::huf::yields(new_diff_stream, diffs(START, lin(*img)))); assert(forall|x: SignedColor| #[trigger] x.ser_ok()); }
@@tail
    proof {
        if vp_r is Ok {
            let w0 = (*old(writer)).written();
            let rest = choose|rest: Seq<u8>| #[trigger] huf_encodes(diffs(START, lin(*img)), rest) && (*final(writer)).written() == w0 + img.dims().ser() + rest;
            let b = img.dims().ser() + rest;
            assert(delta_file(*img, b, rest));
            assert(self.encodes(*img, b));
            assert((*final(writer)).written() =~= w0 + b);
        }
    }

@@top
/* Hash and Eq of SignedColor are derived from those of the array of its channels */
#[verifier::external_body]
pub proof fn axiom_signed_key()
    ensures vstd::std_specs::hash::obeys_key_model::<SignedColor>(),
{
}
@@bottom
impl RoundTrip for SignedColor {
    proof fn rt(x: Self, tail: Seq<u8>) {
        <[i16; 3] as RoundTrip>::rt(x.0, tail);
    }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) {
        <[i16; 3] as RoundTrip>::mono(s, t);
    }
}

@@top
pub open spec fn deltas(img: Img) -> Seq<SignedColor> { diffs(START, lin(img)) }

pub proof fn lemma_complete(img: Img, b: Seq<u8>, tail: Seq<u8>, t: BinTrie<SignedColor>)
    requires exists|rest: Seq<u8>| #[trigger] delta_file(img, b, rest),
    ensures
        <(u32, u32) as Deserialize>::plen(b + tail) == Some(8nat),
        forall|v: (u32, u32)| #[trigger] <(u32, u32) as Deserialize>::pval(b + tail, v) ==> v == img.dims(),
        trie_plen::<SignedColor>((b + tail).skip(8)) is Some,
        trie_pval((b + tail).skip(8), t) ==> dec_n(t, payload::<SignedColor>((b + tail).skip(8)), deltas(img).len()) == Some(deltas(img)),
{
    let rest = choose|rest: Seq<u8>| #[trigger] delta_file(img, b, rest);
    lemma_dims(img.dims(), rest + tail);
    assert(b + tail =~= img.dims().ser() + (rest + tail));
    crate::huf::theorem_lossless(deltas(img), rest, tail, t);
}

pub proof fn lemma_cut(img: Img, b: Seq<u8>, k: int, t: BinTrie<SignedColor>)
    requires (exists|rest: Seq<u8>| #[trigger] delta_file(img, b, rest)), 0 <= k < b.len(),
    ensures
        k < 8 ==> <(u32, u32) as Deserialize>::plen(b.take(k)) is None,
        k >= 8 ==> {
            &&& <(u32, u32) as Deserialize>::plen(b.take(k)) == Some(8nat)
            &&& forall|v: (u32, u32)| #[trigger] <(u32, u32) as Deserialize>::pval(b.take(k), v) ==> v == img.dims()
            &&& trie_plen::<SignedColor>(b.take(k).skip(8)) is Some && trie_pval(b.take(k).skip(8), t)
                ==> dec_n(t, payload::<SignedColor>(b.take(k).skip(8)), deltas(img).len()) is None
                    && forall|j: nat| j <= deltas(img).len() && (#[trigger] dec_n(t, payload::<SignedColor>(b.take(k).skip(8)), j)) is Some
                        ==> dec_n(t, payload::<SignedColor>(b.take(k).skip(8)), j) == Some(deltas(img).take(j as int))
        },
{
    let rest = choose|rest: Seq<u8>| #[trigger] delta_file(img, b, rest);
    lemma_dims(img.dims(), rest);
    lemma_dims_cut(img.dims(), rest, k);
    if k >= 8 {
        lemma_dims(img.dims(), rest.take(k - 8));
        crate::huf::theorem_truncated(deltas(img), rest, k - 8, t);
        let s = b.take(k).skip(8);
        assert(s == rest.take(k - 8));
        if trie_plen::<SignedColor>(s) is Some && trie_pval(s, t) {
            assert forall|j: nat| j <= deltas(img).len() && (#[trigger] dec_n(t, payload::<SignedColor>(s), j)) is Some
                implies dec_n(t, payload::<SignedColor>(s), j) == Some(deltas(img).take(j as int)) by {
                crate::huf::theorem_truncated_symbols(deltas(img), rest, k - 8, t, j);
            }
        }
    }
}

/// a complete file starts with dimensions and a trie
pub proof fn lemma_start(s: Seq<u8>)
    ensures
        <(u32, u32) as Deserialize>::plen(s) is Some ==> <(u32, u32) as Deserialize>::plen(s) == Some(8nat),
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) && s == #[trigger] (b + tail)
            ==> <(u32, u32) as Deserialize>::plen(s) is Some && trie_plen::<SignedColor>(s.skip(8)) is Some,
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) && s == #[trigger] (b + tail)
        implies <(u32, u32) as Deserialize>::plen(s) is Some && trie_plen::<SignedColor>(s.skip(8)) is Some by {
        lemma_complete(img, b, tail, arbitrary());
    }
}

/// the stream ended early: it was no complete file
pub proof fn lemma_none(s: Seq<u8>, t: BinTrie<SignedColor>, n: nat, d: (u32, u32))
    requires <(u32, u32) as Deserialize>::pval(s, d), n == area(d), trie_pval(s.skip(8), t),
    ensures
        dec_n(t, payload::<SignedColor>(s.skip(8)), n) is None ==>
            forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) ==> s != #[trigger] (b + tail),
{
    if dec_n(t, payload::<SignedColor>(s.skip(8)), n) is None {
        assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) implies s != #[trigger] (b + tail) by {
            if s == b + tail { lemma_complete(img, b, tail, t); lemma_lin(img); }
        }
    }
}

/// all pixels were delivered: the file was not cut short, and they are right
pub proof fn lemma_some(s: Seq<u8>, t: BinTrie<SignedColor>, r: Img)
    requires
        <(u32, u32) as Deserialize>::pval(s, r.dims()), trie_plen::<SignedColor>(s.skip(8)) is Some, trie_pval(s.skip(8), t),
        dec_n(t, payload::<SignedColor>(s.skip(8)), deltas(r).len()) == Some(deltas(r)), <(u32, u32) as Deserialize>::plen(s) is Some,
    ensures
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) && s == #[trigger] (b + tail) ==> same(img, r),
        forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Delta.encodes(img, b) && 0 <= k < b.len() ==> s != #[trigger] b.take(k),
{
    lemma_lin(r);
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) && s == #[trigger] (b + tail) implies same(img, r) by {
        lemma_complete(img, b, tail, t);
        lemma_lin(img);
        lemma_diffs_injective(START, lin(img), lin(r));
        lemma_same(img, r);
    }
    assert forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Delta.encodes(img, b) && 0 <= k < b.len() implies s != #[trigger] b.take(k) by {
        if s == b.take(k) { lemma_cut(img, b, k, t); lemma_lin(img); }
    }
}

/// what has been read so far
pub open spec fn sofar(t: BinTrie<SignedColor>, all: Seq<SignedColor>, got: Seq<SignedColor>) -> bool {
    &&& t is Branch ==> all.len() >= got.len() && forall|j: int| 0 <= j < got.len() ==> #[trigger] got[j] == all[j]
    &&& t is Leaf ==> forall|j: int| 0 <= j < got.len() ==> #[trigger] got[j] == t->Leaf_0
}

/// no sum of a complete file, or one cut short, is outside the range of a channel
pub open spec fn sums_fit(s: Seq<u8>, last: SignedColor, d: SignedColor) -> bool {
    &&& forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) && s == #[trigger] (b + tail) ==> fits(last, d)
    &&& forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Delta.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) ==> fits(last, d)
}

pub proof fn lemma_next_fits(s: Seq<u8>, t: BinTrie<SignedColor>, dims: (u32, u32), cs: Seq<Rgb<u8>>, d: SignedColor)
    requires
        <(u32, u32) as Deserialize>::pval(s, dims), trie_plen::<SignedColor>(s.skip(8)) is Some, trie_pval(s.skip(8), t),
        cs.len() < area(dims), <(u32, u32) as Deserialize>::plen(s) is Some,
        sofar(t, dec_all(t, payload::<SignedColor>(s.skip(8))), diffs(START, cs).push(d)),
    ensures sums_fit(s, last_of(START, cs), d),
{
    let bits = payload::<SignedColor>(s.skip(8));
    let got = diffs(START, cs).push(d);
    lemma_delivered(t, bits, got);
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) && s == #[trigger] (b + tail) implies fits(last_of(START, cs), d) by {
        lemma_complete(img, b, tail, t);
        lemma_lin(img);
        crate::huf::lemma_dec_n_first(t, bits, deltas(img).len(), got.len());
        lemma_fits_next(img, cs, d);
    }
    assert forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Delta.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) implies fits(last_of(START, cs), d) by {
        lemma_cut(img, b, k, t);
        lemma_lin(img);
        lemma_fits_next(img, cs, d);
    }
}

pub proof fn lemma_fits_next(img: Img, cs: Seq<Rgb<u8>>, d: SignedColor)
    requires cs.len() < deltas(img).len(), diffs(START, cs).push(d) == deltas(img).take(cs.len() + 1int),
    ensures fits(last_of(START, cs), d),
{
    let l = lin(img);
    let n = cs.len() as int;
    assert(deltas(img).take(n + 1).take(n) =~= diffs(START, l.take(n)));
    assert(diffs(START, cs).push(d).take(n) =~= diffs(START, cs));
    lemma_diffs_injective(START, cs, l.take(n));
    assert(d == deltas(img).take(n + 1)[n]) by { assert(diffs(START, cs).push(d)[n] == d); }
    lemma_signed(l[n], l[n]);
    if n > 0 { lemma_signed(cs[n - 1], cs[n - 1]); }
    lemma_sub_add(signed(l[n]), last_of(START, cs));
}

@@fn <Delta as Codec>::decode
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@forwhile 0 spots
@@start
    let ghost s0 = reader.remaining();
    proof { lemma_start(s0); assert(clone_is_eq::<SignedColor>()); }
@@after let diff_stream = huf::decode_all(reader)?;
    let ghost t = diff_stream.dec.trie;
    let ghost bits = diff_stream.bits.remaining();
    let ghost all = dec_all(t, bits);
    let ghost d = dimensions;
    let ghost n = area(d);
    let ghost mut cs: Seq<Rgb<u8>> = Seq::empty();
@@before for (x, y) in hilbert
    proof { assert(all.skip(0) =~= all); theorem_places(d); assert(places(d).skip(0) =~= places(d)); assert(diffs(START, cs) =~= Seq::empty()); lemma_deliver(t, bits, n); lemma_none(s0, t, n, d); }
@@loop 0
    invariant_except_break
        spots.remaining() == places(d).skip(cs.len() as int),
    invariant
        spots.obeys_prophetic_iter_laws(), clone_is_eq::<SignedColor>(), s0 == old(reader).remaining(),
        n == area(d), places(d).len() == n, cs.len() <= n,
        forall|j: int| 0 <= j < places(d).len() ==> (#[trigger] places(d)[j]).0 < d.0 && places(d)[j].1 < d.1,
        <(u32, u32) as Deserialize>::plen(s0) is Some, <(u32, u32) as Deserialize>::pval(s0, d),
        trie_plen::<SignedColor>(s0.skip(8)) is Some, trie_pval(s0.skip(8), t), bits == payload::<SignedColor>(s0.skip(8)), all == dec_all(t, bits),
        img_buffer.dims() == d, img_buffer.px().len() == n,
        forall|j: int| 0 <= j < cs.len() ==> #[trigger] along(d, img_buffer.px())[j] == cs[j],
        color_stream.diff_stream.dec.trie == t, color_stream.diff_stream.bits.obeys_prophetic_iter_laws(),
        color_stream.last_color == last_of(START, cs),
        sofar(t, all, diffs(START, cs)),
        t is Branch ==> color_stream.diff_stream.remaining() == all.skip(cs.len() as int),
        t is Branch && all.len() < n ==> forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) ==> s0 != #[trigger] (b + tail),
    ensures cs.len() == n,
@@bodystart 0
    let ghost px0 = img_buffer.px();
    let ghost i = cs.len() as int;
    let ghost next = match t { BinTrie::Leaf(v) => v, _ => if i < all.len() { all[i] } else { START } };
    proof {
        lemma_skip_step(places(d), i); lemma_skip_step(all, i);
        lemma_maybe_fits(s0, t, d, cs, next);
        // the sum that the next call forms fits, whenever there is one
        assert(t is Branch ==> i <= all.len());
        assert(t is Leaf || i < all.len() ==> sums_fit(s0, color_stream.last_color, next));
    }
    let ghost last0 = color_stream.last_color;
@@bodyend 0
    proof {
        lemma_area(d);
        assert(places(d)[i] == (x, y));
        assert(0 <= at(d, x as int, y as int) < area(d));
        let c = img_buffer.px()[at(d, x as int, y as int)];
        lemma_paint(d, px0, i, c);
        lemma_diffs_push(START, cs, c);
        cs = cs.push(c);
    }
@@before Some(img_buffer.into())
    proof {
        axiom_dynamic(img_buffer);
        lemma_delivered(t, bits, diffs(START, cs));
        lemma_done(s0, t, d, img_buffer.px(), cs);
    }
@@top
pub proof fn lemma_maybe_fits(s: Seq<u8>, t: BinTrie<SignedColor>, dims: (u32, u32), cs: Seq<Rgb<u8>>, d: SignedColor)
    requires
        <(u32, u32) as Deserialize>::pval(s, dims), trie_plen::<SignedColor>(s.skip(8)) is Some, trie_pval(s.skip(8), t),
        cs.len() < area(dims), <(u32, u32) as Deserialize>::plen(s) is Some,
    ensures
        sofar(t, dec_all(t, payload::<SignedColor>(s.skip(8))), diffs(START, cs).push(d)) ==> sums_fit(s, last_of(START, cs), d),
{
    if sofar(t, dec_all(t, payload::<SignedColor>(s.skip(8))), diffs(START, cs).push(d)) { lemma_next_fits(s, t, dims, cs, d); }
}

/// the answer when all colours were delivered
pub proof fn lemma_done(s: Seq<u8>, t: BinTrie<SignedColor>, d: (u32, u32), px: Seq<Rgb<u8>>, cs: Seq<Rgb<u8>>)
    requires
        <(u32, u32) as Deserialize>::pval(s, d), trie_plen::<SignedColor>(s.skip(8)) is Some, trie_pval(s.skip(8), t), <(u32, u32) as Deserialize>::plen(s) is Some,
        cs.len() == area(d), px.len() == area(d), forall|j: int| 0 <= j < cs.len() ==> #[trigger] along(d, px)[j] == cs[j],
        dec_n(t, payload::<SignedColor>(s.skip(8)), cs.len()) == Some(diffs(START, cs)),
    ensures
        forall|r: Img| #[trigger] r.dims() == d && r.rgb() == px ==> {
            &&& forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) && s == #[trigger] (b + tail) ==> same(img, r)
            &&& forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Delta.encodes(img, b) && 0 <= k < b.len() ==> s != #[trigger] b.take(k)
        },
{
    crate::zhang_hilbert::axiom_scan(d);
    assert(along(d, px) =~= cs);
    assert forall|r: Img| #[trigger] r.dims() == d && r.rgb() == px implies {
        &&& forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Delta.encodes(img, b) && s == #[trigger] (b + tail) ==> same(img, r)
        &&& forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Delta.encodes(img, b) && 0 <= k < b.len() ==> s != #[trigger] b.take(k)
    } by {
        lemma_some(s, t, r);
    }
}

@@fn <Delta as Codec>::name
@@fn <Delta as Codec>::is_lossless ret r
@@spec
    ensures r == self.exact(),
