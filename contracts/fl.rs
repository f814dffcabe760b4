// f64 as the code uses it.  Verus has no model of floating point: the
// operations are functions of their arguments (IEEE 754 is deterministic) and
// the axioms below are the few facts about them the proofs need, each true of
// binary64 with round-to-nearest (assumed).
use vstd::prelude::*;

verus! {

pub uninterp spec fn f_int(n: int) -> f64;      // the number nearest to n; exact below 2^53
pub uninterp spec fn f_add(a: f64, b: f64) -> f64;
pub uninterp spec fn f_sub(a: f64, b: f64) -> f64;
pub uninterp spec fn f_div(a: f64, b: f64) -> f64;
pub uninterp spec fn f_square(a: f64) -> f64;
pub uninterp spec fn f_sqrt(a: f64) -> f64;
pub uninterp spec fn f_le(a: f64, b: f64) -> bool;
pub uninterp spec fn f_to_u8(a: f64) -> u8;     // x.round() as u8

/// sums of small whole numbers are exact
#[verifier::external_body]
pub proof fn axiom_add(a: int, b: int)
    ensures 0 <= a && 0 <= b && a + b < 0x10_0000_0000_0000 ==> f_add(f_int(a), f_int(b)) == f_int(a + b),
{
}

/// 0 <= s <= 255 n: the quotient is no more than 255 and is rounded half up
#[verifier::external_body]
pub proof fn axiom_mean(s: int, n: int)
    ensures
        0 < n <= 255 && 0 <= s <= 255 * n ==> f_le(f_div(f_int(s), f_int(n)), f_int(255)) && f_to_u8(f_div(f_int(s), f_int(n))) == (2 * s + n) / (2 * n),
{
}

/// the root keeps the order of small whole numbers
#[verifier::external_body]
pub proof fn axiom_sqrt(a: int, b: int)
    ensures 0 <= a <= 0x100_0000 && 0 <= b <= 0x100_0000 ==> (f_le(f_sqrt(f_int(a)), f_sqrt(f_int(b))) <==> a <= b),
{
}

#[verifier::external_body]
pub fn of_u8(x: u8) -> (r: f64)
    ensures r == f_int(x as int),
{ x as f64 }

#[verifier::external_body]
pub fn of_i32(x: i32) -> (r: f64)
    ensures r == f_int(x as int),
{ x as f64 }

#[verifier::external_body]
pub fn of_usize(x: usize) -> (r: f64)
    ensures r == f_int(x as int),
{ x as f64 }

#[verifier::external_body]
pub fn zero() -> (r: f64)
    ensures r == f_int(0),
{ 0.0 }

#[verifier::external_body]
pub fn is_zero(x: f64) -> (r: bool)
    ensures r == f_is_zero(x),
{ x == 0.0 }

pub uninterp spec fn f_is_zero(x: f64) -> bool;

#[verifier::external_body]
pub fn add(a: f64, b: f64) -> (r: f64)
    ensures r == f_add(a, b),
{ a + b }

#[verifier::external_body]
pub fn sub(a: f64, b: f64) -> (r: f64)
    ensures r == f_sub(a, b),
{ a - b }

#[verifier::external_body]
pub fn div(a: f64, b: f64) -> (r: f64)
    ensures r == f_div(a, b),
{ a / b }

#[verifier::external_body]
pub fn square(a: f64) -> (r: f64)
    ensures r == f_square(a),
{ a.powi(2) }

#[verifier::external_body]
pub fn sqrt(a: f64) -> (r: f64)
    ensures r == f_sqrt(a),
{ a.sqrt() }

#[verifier::external_body]
pub fn le(a: f64, b: f64) -> (r: bool)
    ensures r == f_le(a, b),
{ a <= b }

#[verifier::external_body]
pub fn lt(a: f64, b: f64) -> (r: bool)
    ensures r == f_lt(a, b),
{ a < b }

pub uninterp spec fn f_finite(a: f64) -> bool;
/// 0 <= a <= 2^k
pub uninterp spec fn f_upto(a: f64, k: nat) -> bool;

/// a whole number below 2^64, to the nearest f64
#[verifier::external_body]
pub proof fn axiom_upto_int(n: int)
    ensures 0 <= n <= 0x1_0000_0000_0000_0000 ==> f_upto(f_int(n), 64),
{
}

#[verifier::external_body]
pub proof fn axiom_upto_add(a: f64, b: f64, k: nat)
    ensures f_upto(a, k) && f_upto(b, k) && k < 1000 ==> f_upto(f_add(a, b), k + 1),
{
}

#[verifier::external_body]
pub proof fn axiom_upto_more(a: f64, k: nat, l: nat)
    ensures f_upto(a, k) && k <= l ==> f_upto(a, l),
{
}

#[verifier::external_body]
pub proof fn axiom_upto_square(a: f64, k: nat)
    ensures f_upto(a, k) && k < 500 ==> f_upto(f_square(a), 2 * k),
{
}

#[verifier::external_body]
pub proof fn axiom_upto_sqrt(a: f64, k: nat)
    ensures f_upto(a, k) ==> f_upto(f_sqrt(a), k),
{
}

#[verifier::external_body]
pub proof fn axiom_upto_finite(a: f64, k: nat)
    ensures f_upto(a, k) && k <= 1000 ==> f_finite(a),
{
}

#[verifier::external_body]
pub fn is_finite(a: f64) -> (r: bool)
    ensures r == f_finite(a),
{ a.is_finite() }

/// a.partial_cmp(&b).unwrap()
#[verifier::external_body]
pub fn cmp(a: f64, b: f64) -> (r: std::cmp::Ordering)
    requires f_finite(a), f_finite(b),
{ a.partial_cmp(&b).unwrap() }

#[verifier::external_body]
pub fn of_u64(x: u64) -> (r: f64)
    ensures r == f_int(x as int),
{ x as f64 }

#[verifier::external_body]
pub fn any() -> (r: f64)
{ 0.0 }

#[verifier::external_body]
pub fn half(a: f64) -> (r: f64)
{ a / 2.0 }

#[verifier::external_body]
pub fn infinity() -> (r: f64)
{ f64::INFINITY }

/// (0.99 * n as f64) as usize
#[verifier::external_body]
pub fn almost(n: usize) -> (r: usize)
    ensures r <= n,
{ (0.99 * n as f64) as usize }

/// (n as f32).sqrt() as usize
#[verifier::external_body]
pub fn root(n: usize) -> (r: usize)
{ (n as f32).sqrt() as usize }

pub uninterp spec fn f_lt(a: f64, b: f64) -> bool;

#[verifier::external_body]
pub fn round_u8(a: f64) -> (r: u8)
    ensures r == f_to_u8(a),
{ a.round() as u8 }

} // verus!
