@@module geom src/geom.rs

@@grewrite use image:: ==> use crate::image:: -- stand-in for the image crate

@@top
use crate::fl::*;

/// the square of the distance between two colours
pub open spec fn dist2(a: Rgb<u8>, b: Rgb<u8>) -> int {
    (a.0[0] - b.0[0]) * (a.0[0] - b.0[0]) + (a.0[1] - b.0[1]) * (a.0[1] - b.0[1]) + (a.0[2] - b.0[2]) * (a.0[2] - b.0[2])
}

pub proof fn lemma_square(x: int)
    requires -255 <= x <= 255,
    ensures 0 <= x * x <= 65025,
{
    assert(0 <= x * x <= 65025) by (nonlinear_arith) requires -255 <= x <= 255;
}

pub proof fn lemma_upto(a: Rgb<u8>, b: Rgb<u8>)
    ensures f_upto(f_sqrt(f_int(dist2(a, b))), 64),
{
    lemma_square(a.0[0] - b.0[0]); lemma_square(a.0[1] - b.0[1]); lemma_square(a.0[2] - b.0[2]);
    axiom_upto_int(dist2(a, b));
    axiom_upto_sqrt(f_int(dist2(a, b)), 64);
}

pub proof fn lemma_finite(a: Rgb<u8>, b: Rgb<u8>)
    ensures f_finite(a.distance(&b)),
{
    lemma_upto(a, b);
    axiom_upto_finite(a.distance(&b), 64);
}

@@inside Distance
    spec fn distance(&self, other: &Self) -> f64;
@@fn Distance::dist ret r
@@spec
    ensures r == self.distance(other),

@@inside <Rgb as Distance>
    open spec fn distance(&self, other: &Self) -> f64 { f_sqrt(f_int(dist2(*self, *other))) }
@@fn <Rgb as Distance>::dist
@@rewrite |i: usize| ==> |i: usize| -> (r: f64) requires i < 3 ensures r == f_int((self.0[i as int] - other.0[i as int]) * (self.0[i as int] - other.0[i as int])) -- closure given its contract
@@rewrite self[i] ==> self.0[i] -- the definition of indexing a colour
@@rewrite other[i] ==> other.0[i] -- the definition of indexing a colour
@@rewrite (diff * diff) as f64 ==> crate::fl::of_i32(diff * diff) -- conversion to f64
@@after let diff = x as i32 - y as i32;
    proof { lemma_square(diff as int); }
@@rewrite (f(0) + f(1) + f(2)).sqrt() ==> crate::fl::sqrt(crate::fl::add(crate::fl::add(f(0), f(1)), f(2))) -- f64 operations as functions
@@start
    proof {
        lemma_square(self.0[0] - other.0[0]); lemma_square(self.0[1] - other.0[1]); lemma_square(self.0[2] - other.0[2]);
        axiom_add((self.0[0] - other.0[0]) * (self.0[0] - other.0[0]), (self.0[1] - other.0[1]) * (self.0[1] - other.0[1]));
        axiom_add((self.0[0] - other.0[0]) * (self.0[0] - other.0[0]) + (self.0[1] - other.0[1]) * (self.0[1] - other.0[1]), (self.0[2] - other.0[2]) * (self.0[2] - other.0[2]));
    }
