@@module hilbert src/hilbert.rs

@@grewrite use zhang_hilbert:: ==> use crate::zhang_hilbert:: -- stand-in for the zhang_hilbert crate
@@grewrite use image:: ==> use crate::image:: -- stand-in for the image crate

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::image::{at, area, Pixel, lemma_area};
use crate::zhang_hilbert::{scan, inside, axiom_scan};
use crate::rt::It;

pub open spec fn place(p: [u32; 2]) -> (usize, usize) { (p[0] as usize, p[1] as usize) }

/// the places of a rectangle in the order of the curve
pub open spec fn places(d: (u32, u32)) -> Seq<(usize, usize)> { Seq::new(scan(d).len(), |i: int| place(scan(d)[i])) }

/// the pixels of a matrix in that order
pub open spec fn along<P>(d: (u32, u32), px: Seq<P>) -> Seq<P> { Seq::new(scan(d).len(), |i: int| px[at(d, scan(d)[i][0] as int, scan(d)[i][1] as int)]) }

/// every place of the rectangle exactly once and nothing else
pub proof fn theorem_places(d: (u32, u32))
    ensures
        places(d).len() == area(d),
        forall|i: int| 0 <= i < places(d).len() ==> (#[trigger] places(d)[i]).0 < d.0 && places(d)[i].1 < d.1,
        forall|i: int, j: int| 0 <= i < j < places(d).len() ==> #[trigger] places(d)[i] != #[trigger] places(d)[j],
        forall|x: usize, y: usize| x < d.0 && y < d.1 ==> #[trigger] places(d).contains((x, y)),
{
    axiom_scan(d);
    assert forall|i: int, j: int| 0 <= i < j < places(d).len() implies #[trigger] places(d)[i] != #[trigger] places(d)[j] by {
        if places(d)[i] == places(d)[j] { assert(scan(d)[i] =~= scan(d)[j]); }
    }
    assert forall|x: usize, y: usize| x < d.0 && y < d.1 implies #[trigger] places(d).contains((x, y)) by {
        let p = [x as u32, y as u32];
        assert(scan(d).contains(p));
        let i = choose|i: int| 0 <= i < scan(d).len() && scan(d)[i] == p;
        assert(places(d)[i] == (x, y));
    }
}

/// two rectangles full of pixels are equal when they are along the curve
pub proof fn lemma_along_injective<P>(d: (u32, u32), a: Seq<P>, b: Seq<P>)
    requires a.len() == area(d), b.len() == area(d), along(d, a) == along(d, b),
    ensures a == b,
{
    axiom_scan(d);
    lemma_area(d);
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] == b[k] by {
        let w = d.0 as int;
        assert(w > 0) by (nonlinear_arith) requires a.len() == d.0 * d.1, k < a.len(), k >= 0, w == d.0 as int;
        let x = k % w;
        let y = k / w;
        assert(0 <= x < w && y >= 0 && k == y * w + x && y < d.1) by (nonlinear_arith)
            requires w > 0, 0 <= k < w * d.1, x == k % w, y == k / w;
        let p = [x as u32, y as u32];
        assert(inside(d, p));
        assert(scan(d).contains(p));
        let i = choose|i: int| 0 <= i < scan(d).len() && scan(d)[i] == p;
        assert(p[0] == x && p[1] == y);
        assert(at(d, x, y) == k);
        assert(along(d, a)[i] == a[at(d, scan(d)[i][0] as int, scan(d)[i][1] as int)]);
        assert(along(d, b)[i] == b[at(d, scan(d)[i][0] as int, scan(d)[i][1] as int)]);
    }
}

@@inside Matrix
    spec fn mdims(&self) -> (usize, usize);
    spec fn mget(&self, x: int, y: int) -> Self::Item;
@@fn Matrix::dimensions ret r
@@spec
    ensures r == self.mdims(), r.0 <= u32::MAX, r.1 <= u32::MAX,
@@fn Matrix::get ret r
@@spec
    requires x < self.mdims().0, y < self.mdims().1,
    ensures r == self.mget(x as int, y as int),

@@inside <T as Matrix>
    open spec fn mdims(&self) -> (usize, usize) { (self.dims().0 as usize, self.dims().1 as usize) }
    open spec fn mget(&self, x: int, y: int) -> Self::Item { self.px()[at(self.dims(), x, y)] }
@@fn <T as Matrix>::dimensions
@@fn <T as Matrix>::get

@@fn iter ret r
@@spec
    requires xdim <= u32::MAX, ydim <= u32::MAX,
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining() == places((xdim as u32, ydim as u32)),
@@rewrite ArbHilbertScan32::new([xdim.try_into().unwrap(), ydim.try_into().unwrap()]) .map(|arr| (arr[0] as usize, arr[1] as usize)) ==> crate::rt::map(ArbHilbertScan32::new([xdim.try_into().unwrap(), ydim.try_into().unwrap()]), |arr: [u32; 2]| -> (p: (usize, usize)) ensures p == place(arr) { (arr[0] as usize, arr[1] as usize) }) -- Iterator::map through its assumed contract; closure given its own
@@tail
    proof { assert(vp_r.remaining() =~= places((xdim as u32, ydim as u32))); }

@@fn from_matrix ret r
@@spec
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(),
        r.remaining().len() == places((data.mdims().0 as u32, data.mdims().1 as u32)).len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> #[trigger] r.remaining()[i] == data.mget(places((data.mdims().0 as u32, data.mdims().1 as u32))[i].0 as int, places((data.mdims().0 as u32, data.mdims().1 as u32))[i].1 as int),
@@before iter(xdim, ydim)
    proof { theorem_places((xdim as u32, ydim as u32)); }
@@rewrite iter(xdim, ydim) .map(|(x, y)| data.get(x, y)) ==> crate::rt::map(iter(xdim, ydim), |p: (usize, usize)| -> (v: T::Item) requires p.0 < data.mdims().0, p.1 < data.mdims().1 ensures v == data.mget(p.0 as int, p.1 as int) { let (x, y) = p; data.get(x, y) }) -- Iterator::map through its assumed contract; closure given its own

@@fn linearize_rect ret r
@@spec
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining() == along(img.dims(), img.px()),
@@tail
    proof { assert(vp_r.remaining() =~= along(img.dims(), img.px())); }

@@top
/// a place in a square is a place of the rectangle
pub open spec fn in_rect(d: (u32, u32)) -> spec_fn((usize, usize)) -> bool { |p: (usize, usize)| p.0 < d.0 && p.1 < d.1 }

/// the places of a rectangle in the order of the curve through a square
pub open spec fn square_places(n: u32, d: (u32, u32)) -> Seq<(usize, usize)> { places((n, n)).filter(in_rect(d)) }

pub open spec fn px_at<P>(d: (u32, u32), px: Seq<P>, ps: Seq<(usize, usize)>) -> Seq<P> { Seq::new(ps.len(), |i: int| px[at(d, ps[i].0 as int, ps[i].1 as int)]) }

pub proof fn lemma_filter_once<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires s.no_duplicates(),
    ensures s.filter(p).no_duplicates(), forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]), forall|x: T| s.contains(x) && p(x) ==> #[trigger] s.filter(p).contains(x),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i] != s[j]); } }
        lemma_filter_once(t, p);
        assert forall|i: int| 0 <= i < s.filter(p).len() implies p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]) by {
            if i < t.filter(p).len() {
                assert(s.filter(p)[i] == t.filter(p)[i]);
                let k = choose|k: int| 0 <= k < t.len() && t[k] == t.filter(p)[i];
                assert(s[k] == t.filter(p)[i]);
            } else {
                assert(s[s.len() - 1] == s.filter(p)[i]);
            }
        }
        if p(s.last()) {
            assert(!t.filter(p).contains(s.last())) by {
                if t.filter(p).contains(s.last()) {
                    let i = choose|i: int| 0 <= i < t.filter(p).len() && t.filter(p)[i] == s.last();
                    let k = choose|k: int| 0 <= k < t.len() && t[k] == t.filter(p)[i];
                    assert(s[k] == s[s.len() - 1]);
                }
            }
        }
        assert forall|x: T| s.contains(x) && p(x) implies #[trigger] s.filter(p).contains(x) by {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
            if k < t.len() {
                assert(t[k] == x);
                assert(t.filter(p).contains(x));
                let i = choose|i: int| 0 <= i < t.filter(p).len() && t.filter(p)[i] == x;
                assert(s.filter(p)[i] == x);
            } else {
                assert(s.filter(p)[s.filter(p).len() - 1] == x);
            }
        }
    }
}

/// the curve through a square that contains the rectangle visits every place of the rectangle exactly once and nothing else
pub proof fn theorem_square_places(n: u32, d: (u32, u32))
    ensures
        forall|i: int| 0 <= i < square_places(n, d).len() ==> (#[trigger] square_places(n, d)[i]).0 < d.0 && square_places(n, d)[i].1 < d.1,
        square_places(n, d).no_duplicates(),
        d.0 <= n && d.1 <= n ==> forall|x: usize, y: usize| x < d.0 && y < d.1 ==> #[trigger] square_places(n, d).contains((x, y)),
{
    theorem_places((n, n));
    let s = places((n, n));
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); } } }
    lemma_filter_once(s, in_rect(d));
    if d.0 <= n && d.1 <= n {
        assert forall|x: usize, y: usize| x < d.0 && y < d.1 implies #[trigger] square_places(n, d).contains((x, y)) by { assert(s.contains((x, y))); }
    }
}

@@fn linearize_small ret r
@@spec
    requires img.dims().0 <= 0x8000_0000, img.dims().1 <= 0x8000_0000,
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(),
        exists|n: u32| n <= img.dims().0 && n <= img.dims().1 && r.remaining() == #[trigger] px_at(img.dims(), img.px(), places((n, n))),
@@rewrite iter(square_order, square_order) .map(|(x, y)| img.get(x, y)) ==> { let it = crate::rt::map(iter(square_order, square_order), |p: (usize, usize)| -> (v: T::Pixel) requires p.0 < img.dims().0, p.1 < img.dims().1 ensures v == img.px()[at(img.dims(), p.0 as int, p.1 as int)] { let (x, y) = p; img.get(x, y) }); proof { assert(it.remaining() =~= px_at(img.dims(), img.px(), places((n, n)))); } it } -- Iterator::map through its assumed contract; closure given its own
@@before iter(square_order, square_order)
    let ghost n = square_order as u32;
    proof {
        let a = xdim; let b = ydim;
        assert forall|z: u32| #[trigger] (z >> 1) == z / 2 by { assert(z >> 1 == z / 2) by (bit_vector); }
        theorem_places((n, n));
    }

@@fn linearize_large ret r
@@spec
    requires img.dims().0 <= 0x8000_0000, img.dims().1 <= 0x8000_0000,
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(),
        exists|n: u32| n >= img.dims().0 && n >= img.dims().1 && r.remaining() == #[trigger] px_at(img.dims(), img.px(), square_places(n, img.dims())),
@@rewrite iter(square_order as usize, square_order as usize) .filter(move |(x, y)| $E) .map(|(x, y)| img.get(x, y)) ==> { let it = crate::rt::map(crate::text::filter(iter(square_order as usize, square_order as usize), move |p: &(usize, usize)| -> (b: bool) ensures b == in_rect(img.dims())(*p) { let (x, y) = p; $E }, Ghost(in_rect(img.dims()))), |p: (usize, usize)| -> (v: T::Pixel) requires p.0 < img.dims().0, p.1 < img.dims().1 ensures v == img.px()[at(img.dims(), p.0 as int, p.1 as int)] { let (x, y) = p; img.get(x, y) }); proof { assert(it.remaining() =~= px_at(img.dims(), img.px(), square_places(n, img.dims()))); } it } -- Iterator::filter and map through their assumed contracts; closures given their own
@@before iter(square_order as usize, square_order as usize)
    let ghost n = square_order;
    proof { theorem_square_places(n, img.dims()); }
