// Stand-in for the parts of the `image` crate the verified code names: an
// image is its dimensions and its pixels in row-major order, and reading,
// writing and converting pixels do what their documentation says (assumed).
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::PartialEqSpec;

verus! {

#[derive(Eq, Copy, Debug, Hash)]
pub struct Rgb<T>(pub [T; 3]);

/* derived: equal when all channels are */
impl<T: PartialEq> PartialEq for Rgb<T> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { self.0 == other.0 }
}

impl<T: PartialEq> vstd::std_specs::cmp::PartialEqSpecImpl for Rgb<T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.0[0].eq_spec(&other.0[0]) && self.0[1].eq_spec(&other.0[1]) && self.0[2].eq_spec(&other.0[2]) }
}

impl<T: Copy> Clone for Rgb<T> {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { *self }
}


#[derive(PartialEq, Eq, Clone, Copy, Debug, Hash)]
pub struct Rgba<T>(pub [T; 4]);

impl<T> From<[T; 3]> for Rgb<T> {
    #[verifier::external_body]
    fn from(a: [T; 3]) -> (r: Self) { Rgb(a) }
}

impl<T> vstd::std_specs::convert::FromSpecImpl<[T; 3]> for Rgb<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: [T; 3]) -> Self { Rgb(a) }
}

/* Hash and Eq of Rgb are derived from those of the array of its channels */
#[verifier::external_body]
pub proof fn axiom_rgb_key()
    ensures vstd::std_specs::hash::obeys_key_model::<Rgb<u8>>(),
{
}

/* Pixel::to_rgb: the colour channels; alpha is dropped */
pub trait Pixel: Sized + Copy {
    type Subpixel;

    spec fn rgb(&self) -> Rgb<Self::Subpixel>;

    fn to_rgb(&self) -> (r: Rgb<Self::Subpixel>)
        ensures r == self.rgb(),
    ;
}

impl Pixel for Rgb<u8> {
    type Subpixel = u8;
    open spec fn rgb(&self) -> Rgb<u8> { *self }
    fn to_rgb(&self) -> (r: Rgb<u8>) { *self }
}

impl Pixel for Rgba<u8> {
    type Subpixel = u8;
    open spec fn rgb(&self) -> Rgb<u8> { Rgb([self.0[0], self.0[1], self.0[2]]) }
    fn to_rgb(&self) -> (r: Rgb<u8>) { Rgb([self.0[0], self.0[1], self.0[2]]) }
}

pub open spec fn area(d: (u32, u32)) -> nat { d.0 as nat * d.1 as nat }

pub proof fn lemma_area(d: (u32, u32))
    ensures
        area(d) <= u64::MAX, area(d) <= usize::MAX || usize::BITS < 64,
        d.0 > 0 && d.1 > 0 ==> area(d) > 0,
        forall|x: int, y: int| 0 <= x < d.0 && 0 <= y < d.1 ==> 0 <= #[trigger] at(d, x, y) < area(d),
{
    assert(area(d) <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith)
        requires area(d) == d.0 * d.1, d.0 <= 0xffff_ffff, d.1 <= 0xffff_ffff;
    if d.0 > 0 && d.1 > 0 {
        assert(area(d) > 0) by (nonlinear_arith) requires area(d) == d.0 * d.1, d.0 > 0, d.1 > 0;
    }
    assert forall|x: int, y: int| 0 <= x < d.0 && 0 <= y < d.1 implies 0 <= #[trigger] at(d, x, y) < area(d) by {
        assert(0 <= y * d.0 + x < d.0 * d.1) by (nonlinear_arith) requires 0 <= x < d.0, 0 <= y < d.1;
    }
}

/// where the pixel (x, y) is in row-major order
pub open spec fn at(d: (u32, u32), x: int, y: int) -> int { y * d.0 + x }

pub open spec fn rgbs(s: Seq<Rgba<u8>>) -> Seq<Rgb<u8>> { Seq::new(s.len(), |i: int| s[i].rgb()) }

pub trait GenericImageView {
    type Pixel: Pixel;

    spec fn dims(&self) -> (u32, u32);
    spec fn px(&self) -> Seq<Self::Pixel>;

    fn dimensions(&self) -> (r: (u32, u32))
        ensures r == self.dims(), self.px().len() == area(r),
    ;

    fn get_pixel(&self, x: u32, y: u32) -> (r: Self::Pixel)
        requires x < self.dims().0, y < self.dims().1,
        ensures r == self.px()[at(self.dims(), x as int, y as int)],
    ;
}

#[verifier::external_body]
pub struct DynamicImage { _p: () }

impl DynamicImage {
    /// the colours, row by row
    pub open spec fn rgb(&self) -> Seq<Rgb<u8>> { rgbs(self.px()) }

    #[verifier::external_body]
    pub fn pixels<'a>(&'a self) -> (r: crate::rt::It<'a, (u32, u32, Rgba<u8>)>)
        ensures
            r.obeys_prophetic_iter_laws(), r.will_return_none(),
            r.remaining().len() == self.px().len(),
            forall|i: int| 0 <= i < self.px().len() ==> (#[trigger] r.remaining()[i]).2 == self.px()[i]
                && r.remaining()[i].0 < self.dims().0 && r.remaining()[i].1 < self.dims().1
                && at(self.dims(), r.remaining()[i].0 as int, r.remaining()[i].1 as int) == i,
    { unimplemented!() }
}

impl GenericImageView for DynamicImage {
    type Pixel = Rgba<u8>;
    uninterp spec fn dims(&self) -> (u32, u32);
    uninterp spec fn px(&self) -> Seq<Rgba<u8>>;

    #[verifier::external_body]
    fn dimensions(&self) -> (r: (u32, u32)) { unimplemented!() }

    #[verifier::external_body]
    fn get_pixel(&self, x: u32, y: u32) -> (r: Rgba<u8>) { unimplemented!() }
}

/// an image has a pixel for every place
#[verifier::external_body]
pub proof fn lemma_px_len(img: DynamicImage)
    ensures img.px().len() == area(img.dims()), img.rgb().len() == area(img.dims()),
{
}

/* Allocation succeeds, as everywhere. */
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(C)]
pub struct ImageBuffer<P, C> { _p: std::marker::PhantomData<(P, C)> }

pub type RgbImage = ImageBuffer<Rgb<u8>, Vec<u8>>;

impl<P: Pixel, C> ImageBuffer<P, C> {
    pub uninterp spec fn dims(&self) -> (u32, u32);
    pub uninterp spec fn px(&self) -> Seq<P>;

    #[verifier::external_body]
    pub fn new(w: u32, h: u32) -> (r: Self)
        ensures r.dims() == (w, h), r.px().len() == area((w, h)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn pixel_count(&self) -> (r: usize)
        ensures r == self.px().len(), r == area(self.dims()),
    { unimplemented!() }

    /// where enumerate_pixels_mut() is at its i-th step
    #[verifier::external_body]
    pub fn place(&self, i: usize) -> (r: (u32, u32))
        requires i < self.px().len(),
        ensures r.0 < self.dims().0, r.1 < self.dims().1, at(self.dims(), r.0 as int, r.1 as int) == i,
    { unimplemented!() }

    /// pixels_mut().nth(i)
    #[verifier::external_body]
    pub fn pixel_mut(&mut self, i: usize) -> (r: &mut P)
        requires i < old(self).px().len(),
        ensures
            *r == old(self).px()[i as int],
            final(self).dims() == old(self).dims(),
            final(self).px() == old(self).px().update(i as int, *final(r)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> (r: &mut P)
        requires x < old(self).dims().0, y < old(self).dims().1,
        ensures
            *r == old(self).px()[at(old(self).dims(), x as int, y as int)],
            final(self).dims() == old(self).dims(),
            final(self).px() == old(self).px().update(at(old(self).dims(), x as int, y as int), *final(r)),
    { unimplemented!() }
}

impl ImageBuffer<Rgb<u8>, Vec<u8>> {
    #[verifier::external_body]
    pub fn from_fn<F: Fn(u32, u32) -> Rgb<u8>>(w: u32, h: u32, f: F) -> (r: Self)
        requires forall|x: u32, y: u32| x < w && y < h ==> #[trigger] f.requires((x, y)),
        ensures
            r.dims() == (w, h), r.px().len() == area((w, h)),
            forall|x: u32, y: u32| x < w && y < h ==> f.ensures((x, y), #[trigger] r.px()[at((w, h), x as int, y as int)]),
    { unimplemented!() }
}

/// every index is that of a place
pub proof fn lemma_place(d: (u32, u32), i: int) -> (r: (u32, u32))
    requires 0 <= i < area(d),
    ensures r.0 < d.0, r.1 < d.1, at(d, r.0 as int, r.1 as int) == i,
{
    let w = d.0 as int;
    assert(w > 0) by (nonlinear_arith) requires 0 <= i < w * d.1, w >= 0;
    let x = i % w;
    let y = i / w;
    assert(0 <= x < w && 0 <= y < d.1 && y * w + x == i) by (nonlinear_arith) requires 0 <= i < w * d.1, w > 0, x == i % w, y == i / w;
    (x as u32, y as u32)
}

impl From<RgbImage> for DynamicImage {
    #[verifier::external_body]
    fn from(b: RgbImage) -> (r: DynamicImage)
    { unimplemented!() }
}

pub uninterp spec fn dynamic(b: RgbImage) -> DynamicImage;

#[verifier::external_body]
pub broadcast proof fn axiom_dynamic(b: RgbImage)
    ensures (#[trigger] dynamic(b)).dims() == b.dims(), dynamic(b).rgb() == b.px(),
{
}

impl vstd::std_specs::convert::FromSpecImpl<RgbImage> for DynamicImage {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: RgbImage) -> DynamicImage { dynamic(b) }
}

} // verus!
