// Stand-in for the zhang_hilbert crate: the scan of a rectangle is the same
// every time and visits every place of it once (assumed; every size up to
// 40x40 and selected larger ones are enumerated by the C13 harness).
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::image::area;

verus! {

#[verifier::external_body]
pub struct ArbHilbertScan32 { _p: () }

/// the i-th place the scan of a rectangle visits
pub uninterp spec fn scan(d: (u32, u32)) -> Seq<[u32; 2]>;

pub open spec fn inside(d: (u32, u32), p: [u32; 2]) -> bool { p[0] < d.0 && p[1] < d.1 }

#[verifier::external_body]
pub proof fn axiom_scan(d: (u32, u32))
    ensures
        scan(d).len() == area(d),
        forall|i: int| 0 <= i < scan(d).len() ==> inside(d, #[trigger] scan(d)[i]),
        forall|i: int, j: int| 0 <= i < j < scan(d).len() ==> #[trigger] scan(d)[i] != #[trigger] scan(d)[j],
        forall|p: [u32; 2]| inside(d, p) ==> #[trigger] scan(d).contains(p),
{
}

impl ArbHilbertScan32 {
    #[verifier::external_body]
    pub fn new(size: [u32; 2]) -> (r: Self)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining() == scan((size[0], size[1])),
    { unimplemented!() }
}

impl Iterator for ArbHilbertScan32 {
    type Item = [u32; 2];
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<[u32; 2]>) { unimplemented!() }
}

impl vstd::std_specs::iter::IteratorSpecImpl for ArbHilbertScan32 {
    uninterp spec fn obeys_prophetic_iter_laws(&self) -> bool;
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<[u32; 2]>;
    #[verifier::prophetic]
    uninterp spec fn will_return_none(&self) -> bool;
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<[u32; 2]> { None }
}

} // verus!
