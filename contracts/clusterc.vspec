@@module codec::clusterc src/codec/clusterc.rs

@@grewrite image:: ==> crate::image:: -- stand-in for the image crate
@@grewrite use regex::Regex; ==>  -- used by the argument parsers only
@@grewrite use std::str::FromStr; ==>  -- used by the argument parsers only
@@drop <ClusterColors as FromStr> -- under contract as codec::args_clusterc
@@drop <VoronoiCluster as FromStr> -- under contract as codec::args_clusterc
@@grewrite #[derive(Clone, PartialEq, Eq, Debug)] ==>  -- Clone written out below; the others are not used

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::codec::*;
use crate::codec::hufc::*;
use crate::image::{Rgba, RgbImage, area, at, lemma_area, lemma_place, axiom_dynamic, axiom_rgb_key, lemma_px_len};
use crate::utils::{occurs, lemma_occurs, is_freqs};
use crate::kmeans::{partitioned, held, same_points, none_empty, Clusters, clusterable, all_weighty, lemma_members, Point};
use crate::ser::{RoundTrip, ser_n, plen_n, pval_n, ser_ok_n, deser_n, lemma_rt_n, lemma_mono_n};
use crate::fl::*;

/* derived Clone, written out */
impl Clone for ColorCount {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { ColorCount { color: self.color.clone(), count: self.count } }
}

/// v lies between that channel of two of the colours
pub open spec fn between(s: Seq<Rgb<u8>>, v: u8, ch: int) -> bool {
    exists|lo: int, hi: int| 0 <= lo < s.len() && 0 <= hi < s.len() && #[trigger] s[lo].0[ch] <= v <= #[trigger] s[hi].0[ch]
}

/// every channel of c does
pub open spec fn in_range(s: Seq<Rgb<u8>>, c: Rgb<u8>) -> bool {
    forall|ch: int| 0 <= ch < 3 ==> between(s, #[trigger] c.0[ch], ch)
}

/// out is img in at most n colours
pub open spec fn reduced(n: nat, img: Img, out: Img) -> bool {
    &&& out.dims() == img.dims() && out.rgb().len() == img.rgb().len()
    &&& exists|palette: Seq<Rgb<u8>>| palette.len() <= n && forall|i: int| 0 <= i < out.rgb().len() ==> #[trigger] palette.contains(out.rgb()[i])
    &&& forall|i: int, j: int| 0 <= i < img.rgb().len() && 0 <= j < img.rgb().len() && img.rgb()[i] == img.rgb()[j] ==> #[trigger] out.rgb()[i] == #[trigger] out.rgb()[j]
    &&& forall|i: int| 0 <= i < out.rgb().len() ==> in_range(img.rgb(), #[trigger] out.rgb()[i])
}

/* weighted sums */
pub open spec fn wtot(s: Seq<ColorCount>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { wtot(s.drop_last()) + s.last().count as nat }
}

pub open spec fn wsum(s: Seq<ColorCount>, ch: int) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { wsum(s.drop_last(), ch) + s.last().color.0[ch] as nat * s.last().count as nat }
}

pub proof fn lemma_weights(s: Seq<ColorCount>, ch: int, lo: nat, hi: nat)
    ensures
        (forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).color.0[ch]) ==> lo * wtot(s) <= wsum(s, ch),
        (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).color.0[ch] <= hi) ==> wsum(s, ch) <= hi * wtot(s),
        wtot(s) <= s.len() * 0xffff_ffff,
        s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).weighty()) ==> wtot(s) > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        let x = s.last();
        let v = x.color.0[ch] as nat;
        let w = x.count as nat;
        assert(s[s.len() - 1] == x);
        lemma_weights(t, ch, lo, hi);
        if forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).color.0[ch] {
            assert forall|i: int| 0 <= i < t.len() implies lo <= (#[trigger] t[i]).color.0[ch] by { assert(t[i] == s[i]); }
            assert(lo * (wtot(t) + w) <= wsum(t, ch) + v * w) by (nonlinear_arith) requires lo * wtot(t) <= wsum(t, ch), lo <= v;
        }
        if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).color.0[ch] <= hi {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).color.0[ch] <= hi by { assert(t[i] == s[i]); }
            assert(wsum(t, ch) + v * w <= hi * (wtot(t) + w)) by (nonlinear_arith) requires wsum(t, ch) <= hi * wtot(t), v <= hi;
        }
        if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).weighty() {
            assert(x.weighty());
        }
    } else {
        assert(lo * wtot(s) == 0) by (nonlinear_arith) requires wtot(s) == 0;
        assert(hi * wtot(s) == 0) by (nonlinear_arith) requires wtot(s) == 0;
    }
}

/// what adding one more point does, within u64
pub proof fn lemma_weigh(s: Seq<ColorCount>, k: int)
    requires 0 <= k < s.len(), s.len() <= 0x100_0000,
    ensures
        s.take(k + 1).drop_last() == s.take(k), s.take(k + 1).last() == s[k],
        wtot(s.take(k + 1)) == wtot(s.take(k)) + s[k].count, wtot(s.take(k + 1)) <= 0x100_0000 * 0xffff_ffff,
        forall|ch: int| 0 <= ch < 3 ==> #[trigger] wsum(s.take(k + 1), ch) == wsum(s.take(k), ch) + s[k].color.0[ch] as nat * s[k].count as nat
            && wsum(s.take(k + 1), ch) <= 255 * 0x100_0000 * 0xffff_ffff,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    lemma_weights(s.take(k + 1), 0, 0, 255);
    assert((k + 1) * 0xffff_ffff <= 0x100_0000 * 0xffff_ffff) by (nonlinear_arith) requires k + 1 <= 0x100_0000;
    assert forall|ch: int| 0 <= ch < 3 implies #[trigger] wsum(s.take(k + 1), ch) == wsum(s.take(k), ch) + s[k].color.0[ch] as nat * s[k].count as nat
            && wsum(s.take(k + 1), ch) <= 255 * 0x100_0000 * 0xffff_ffff by {
        lemma_weights(s.take(k + 1), ch, 0, 255);
    }
}

/// a mean lies between two of the values
pub proof fn lemma_mean_in_range(s: Seq<ColorCount>, m: ColorCount, all: Seq<Rgb<u8>>)
    requires ColorCount::is_mean(s, m), s.len() > 0, forall|i: int| 0 <= i < s.len() ==> all.contains((#[trigger] s[i]).color),
    ensures in_range(all, m.color),
{
    assert forall|ch: int| 0 <= ch < 3 implies between(all, #[trigger] m.color.0[ch], ch) by {
        let t = wtot(s);
        let v = wsum(s, ch);
        let q = m.color.0[ch] as nat;
        assert(q == v / t);
        assert(q * t <= v < (q + 1) * t) by (nonlinear_arith) requires q == v / t, t > 0;
        lemma_weights(s, ch, q + 1, 0);
        let j: int = if forall|i: int| 0 <= i < s.len() ==> q + 1 <= (#[trigger] s[i]).color.0[ch] { 0 } else {
            choose|i: int| 0 <= i < s.len() && q + 1 > (#[trigger] s[i]).color.0[ch]
        };
        assert(s[j].color.0[ch] <= q);
        let k: int = if q == 0 { 0 } else {
            lemma_weights(s, ch, 0, (q - 1) as nat);
            assert((q - 1) * t < q * t) by (nonlinear_arith) requires t > 0;
            if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).color.0[ch] <= q - 1 { 0 } else {
                choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).color.0[ch] > q - 1
            }
        };
        assert(s[k].color.0[ch] >= q);
        let lo = choose|i: int| 0 <= i < all.len() && all[i] == s[j].color;
        let hi = choose|i: int| 0 <= i < all.len() && all[i] == s[k].color;
        assert(all[lo].0[ch] <= m.color.0[ch] <= all[hi].0[ch]);
    }
}

/* there are 2^24 colours */
pub open spec fn color_number(c: Rgb<u8>) -> int { c.0[0] * 65536 + c.0[1] * 256 + c.0[2] }

pub proof fn lemma_color_number(a: Rgb<u8>, b: Rgb<u8>)
    ensures 0 <= color_number(a) < 0x100_0000, color_number(a) == color_number(b) ==> a == b,
{
    if color_number(a) == color_number(b) {
        assert(a.0[0] == b.0[0] && a.0[1] == b.0[1] && a.0[2] == b.0[2]);
        assert(a.0 =~= b.0);
    }
}

pub proof fn lemma_few_colors(s: Seq<Rgb<u8>>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j],
    ensures s.len() <= 0x100_0000,
{
    let n = Seq::new(s.len(), |i: int| color_number(s[i]));
    assert(n.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by {
            lemma_color_number(s[i], s[j]);
            if i < j { assert(s[i] != s[j]); } else { assert(s[j] != s[i]); }
        }
    }
    n.unique_seq_to_set();
    let all = vstd::set_lib::set_int_range(0, 0x100_0000);
    vstd::set_lib::lemma_int_range(0, 0x100_0000);
    assert(n.to_set().subset_of(all)) by {
        assert forall|x: int| n.to_set().contains(x) implies all.contains(x) by {
            let i = choose|i: int| 0 <= i < n.len() && n[i] == x;
            lemma_color_number(s[i], s[i]);
        }
    }
    vstd::set_lib::lemma_len_subset(n.to_set(), all);
}

/// the points clustered: every colour of the image once
pub open spec fn counted(points: Seq<ColorCount>, px: Seq<Rgb<u8>>) -> bool {
    &&& forall|i: int| 0 <= i < points.len() ==> px.contains((#[trigger] points[i]).color) && points[i].weighty()
    &&& forall|k: int| 0 <= k < px.len() ==> exists|i: int| 0 <= i < points.len() && (#[trigger] points[i]).color == #[trigger] px[k]
    &&& 0 < points.len() <= 0x100_0000
}

pub proof fn lemma_counted(m: Map<Rgb<u8>, u64>, e: Seq<(Rgb<u8>, u64)>, px: Seq<Rgb<u8>>, points: Seq<ColorCount>)
    requires
        is_freqs(m, px), crate::rt::entries_of(m, e), 0 < px.len() <= 0xffff_ffff, points.len() == e.len(),
        forall|i: int| 0 <= i < e.len() ==> (#[trigger] points[i]).color == e[i].0 && points[i].count == e[i].1 as u32,
    ensures counted(points, px), clusterable(points),
{
    let cols = Seq::new(e.len(), |i: int| e[i].0);
    lemma_few_colors(cols);
    assert forall|i: int| 0 <= i < points.len() implies px.contains((#[trigger] points[i]).color) && points[i].weighty() by {
        lemma_occurs(px, e[i].0);
        assert(m.contains_key(e[i].0));
    }
    assert forall|k: int| 0 <= k < px.len() implies exists|i: int| 0 <= i < points.len() && (#[trigger] points[i]).color == #[trigger] px[k] by {
        lemma_occurs(px, px[k]);
        assert(px.contains(px[k]));
        assert(m.contains_key(px[k]));
        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == px[k];
        assert(points[i].color == px[k]);
    }
    assert(exists|i: int| 0 <= i < points.len() && (#[trigger] points[i]).color == px[0]);
}

/// old colours to new ones: those of the clusters they are in
pub open spec fn recolors(t: Map<Rgb<u8>, Rgb<u8>>, cents: Seq<ColorCount>, groups: Seq<Vec<ColorCount>>) -> bool {
    &&& forall|j: int, k: int| 0 <= j < groups.len() && 0 <= k < groups[j]@.len() ==> t.contains_key((#[trigger] groups[j]@[k]).color)
    &&& forall|c: Rgb<u8>| #[trigger] t.contains_key(c) ==> exists|j: int| 0 <= j < cents.len() && #[trigger] cents[j].color == t[c]
}

/* HashMap::from_iter(clusters.into_iter().flat_map(|(centroid, points)| points.into_iter()
   .map(|color_count| color_count.color).map(move |old_color| (old_color, centroid.color.clone())))), written out (verified) */
pub fn color_table(clusters: Clusters<ColorCount>) -> (r: HashMap<Rgb<u8>, Rgb<u8>>)
    requires clusters.cents().len() == clusters.groups().len(),
    ensures recolors(r@, clusters.cents(), clusters.groups()),
{
    let mut t: HashMap<Rgb<u8>, Rgb<u8>> = HashMap::new();
    let ghost cents = clusters.cents();
    let ghost groups = clusters.groups();
    let parts = crate::rt::collect(clusters.into_iter());
    proof { axiom_rgb_key(); }
    for j in 0..parts.len()
        invariant
            vstd::std_specs::hash::obeys_key_model::<Rgb<u8>>(),
            parts@.len() == cents.len() == groups.len(),
            forall|i: int| 0 <= i < cents.len() ==> #[trigger] parts@[i] == (cents[i], groups[i]),
            forall|i: int, k: int| 0 <= i < j && 0 <= k < groups[i]@.len() ==> t@.contains_key((#[trigger] groups[i]@[k]).color),
            forall|c: Rgb<u8>| #[trigger] t@.contains_key(c) ==> exists|i: int| 0 <= i < cents.len() && #[trigger] cents[i].color == t@[c],
    {
        let (centroid, points_in_cluster) = &parts[j];
        proof { assert(parts@[j as int] == (cents[j as int], groups[j as int])); }
        for k in 0..points_in_cluster.len()
            invariant
                vstd::std_specs::hash::obeys_key_model::<Rgb<u8>>(),
                j < cents.len() == groups.len(), *centroid == cents[j as int], points_in_cluster@ == groups[j as int]@,
                forall|i: int, l: int| 0 <= i < j && 0 <= l < groups[i]@.len() ==> t@.contains_key((#[trigger] groups[i]@[l]).color),
                forall|l: int| 0 <= l < k ==> t@.contains_key((#[trigger] groups[j as int]@[l]).color),
                forall|c: Rgb<u8>| #[trigger] t@.contains_key(c) ==> exists|i: int| 0 <= i < cents.len() && #[trigger] cents[i].color == t@[c],
        {
            t.insert(points_in_cluster[k].color, centroid.color.clone());
            proof { assert(cents[j as int].color == centroid.color); }
        }
    }
    t
}

/// what Hufman makes of the file of the reduced image is what is claimed
pub proof fn lemma_delegate(s: Seq<u8>, c: &ClusterColors, r: Option<Img>)
    requires
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Hufman.encodes(img, b) && s == #[trigger] (b + tail) ==> r is Some && same(img, r->Some_0),
        forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Hufman.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) ==> r is None,
    ensures
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] c.encodes(img, b) && s == #[trigger] (b + tail) ==> r is Some && c.faithful(img, r->Some_0),
        forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] c.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) ==> r is None,
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] c.encodes(img, b) && s == #[trigger] (b + tail) implies r is Some && c.faithful(img, r->Some_0) by {
        let red = choose|red: Img| #[trigger] in_colors(c.0 as nat, img, red, b);
        assert(nonempty(red) && Hufman.encodes(red, b));
        lemma_reduced_same(c.0 as nat, img, red, r->Some_0);
    }
    assert forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] c.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) implies r is None by {
        let red = choose|red: Img| #[trigger] in_colors(c.0 as nat, img, red, b);
        assert(nonempty(red) && Hufman.encodes(red, b));
    }
}

pub open spec fn in_colors(n: nat, img: Img, out: Img, b: Seq<u8>) -> bool {
    reduced(n, img, out) && is_file(out, b)
}

/// reducing depends on nothing but dimensions and colours
pub proof fn lemma_reduced_same(n: nat, img: Img, red: Img, out: Img)
    ensures reduced(n, img, red) && same(red, out) ==> reduced(n, img, out),
{
}

@@inside <ClusterColors as Codec>
    open spec fn encodes(&self, img: Img, b: Seq<u8>) -> bool { exists|red: Img| #[trigger] in_colors(self.0 as nat, img, red, b) }
    open spec fn exact(&self) -> bool { false }
    open spec fn handles(&self, img: Img) -> bool { self.0 > 0 && area(img.dims()) <= 0xffff_ffff }
    open spec fn faithful(&self, img: Img, out: Img) -> bool { reduced(self.0 as nat, img, out) }

@@fn <ClusterColors as Codec>::encode
@@rewrite || img.pixels().map(|(_x, _y, px)| $E) ==> || -> (r: It<'_, Rgb<u8>>) ensures r.obeys_prophetic_iter_laws(), r.remaining() == img.rgb() { let r = crate::rt::map(img.pixels(), |p: (u32, u32, Rgba<u8>)| -> (c: Rgb<u8>) ensures c == p.2.rgb() { let (_x, _y, px) = p; $E }); proof { assert(r.remaining() =~= img.rgb()); } r } -- Iterator::map through its assumed contract; closures given theirs
@@rewrite let color_counts = utils::count_freqs(pixels_iter()) .into_iter() .map(|(color, count)| $E) .collect(); ==> let vp_freqs = utils::count_freqs(pixels_iter()); let ghost m = vp_freqs@; let vp_entries = crate::rt::into_entries(vp_freqs); let ghost e = vp_entries.remaining(); let color_counts: Vec<ColorCount> = crate::rt::collect(crate::rt::map(vp_entries, |p: (Rgb<u8>, u64)| -> (c: ColorCount) ensures c.color == p.0, c.count == p.1 as u32 { let (color, count) = p; $E })); -- assumed contracts of HashMap::into_iter, Iterator::map and collect; closure given its contract
@@start
    proof { lemma_px_len(*img); lemma_area(img.dims()); axiom_rgb_key(); }
@@after let color_counts = utils::count_freqs(pixels_iter()) .into_iter() .map(|(color, count)| $E) .collect();
    let ghost points = color_counts@;
    proof { lemma_counted(m, e, img.rgb(), points); }
@@rewrite HashMap::<_, _>::from_iter( clusters.into_iter() .flat_map(|(centroid, points_in_cluster)| { points_in_cluster.into_iter() .map(|color_count| color_count.color) .map(move |old_color| (old_color, centroid.color.clone())) })) ==> color_table(clusters) -- the iterator chain written out
@@after let clusters = kmeans::cluster($A);
    let ghost cents = clusters.cents();
    let ghost groups = clusters.groups();
@@rewrite |x, y| { let original_color ==> |x: u32, y: u32| -> (c: Rgb<u8>) requires x < img.dims().0, y < img.dims().1, reduced_colors@.contains_key(img.px()[at(img.dims(), x as int, y as int)].rgb()), vstd::std_specs::hash::obeys_key_model::<Rgb<u8>>() ensures c == reduced_colors@[img.px()[at(img.dims(), x as int, y as int)].rgb()] { let original_color -- closure given its contract
@@rewrite .get(&original_color) ==> .get(original_color) -- a reference to a reference
@@before let reduced_img = image::ImageBuffer::from_fn
    proof { lemma_table(*img, points, cents, groups, reduced_colors@); }
    let ghost table = reduced_colors@;
@@before let reduced_img = reduced_img.into();
    let ghost buf = reduced_img;
@@after let reduced_img = reduced_img.into();
    proof {
        axiom_dynamic(buf);
        lemma_recolored(self.0 as nat, *img, points, cents, groups, table, reduced_img);
        assert forall|b: Seq<u8>| #[trigger] Hufman.encodes(reduced_img, b) implies self.encodes(*img, b) by {
            assert(in_colors(self.0 as nat, *img, reduced_img, b));
        }
    }

@@top
/// every pixel has got a new colour
pub proof fn lemma_table(img: Img, points: Seq<ColorCount>, cents: Seq<ColorCount>, groups: Seq<Vec<ColorCount>>, t: Map<Rgb<u8>, Rgb<u8>>)
    requires
        counted(points, img.rgb()), same_points(groups, points), recolors(t, cents, groups), img.rgb().len() == area(img.dims()),
    ensures
        forall|x: u32, y: u32| x < img.dims().0 && y < img.dims().1 ==> t.contains_key((#[trigger] img.px()[at(img.dims(), x as int, y as int)]).rgb()),
{
    assert forall|x: u32, y: u32| x < img.dims().0 && y < img.dims().1 implies t.contains_key((#[trigger] img.px()[at(img.dims(), x as int, y as int)]).rgb()) by {
        lemma_area(img.dims());
        let k = at(img.dims(), x as int, y as int);
        assert(0 <= k < img.rgb().len());
        let i = choose|i: int| 0 <= i < points.len() && (#[trigger] points[i]).color == img.rgb()[k];
        lemma_occurs(points, points[i]);
        let (j, l) = lemma_held_where(groups, points[i]);
        assert(t.contains_key(groups[j]@[l].color));
        assert(img.rgb()[k] == img.px()[k].rgb());
    }
}

/// a point that is held is in one of the groups
pub proof fn lemma_held_where<T>(a: Seq<Vec<T>>, x: T) -> (r: (int, int))
    requires held(a, x) > 0,
    ensures 0 <= r.0 < a.len(), 0 <= r.1 < a[r.0]@.len(), a[r.0]@[r.1] == x,
    decreases a.len(),
{
    if a.len() == 0 { (0, 0) } else if held(a.drop_last(), x) > 0 {
        let r = lemma_held_where(a.drop_last(), x);
        assert(a.drop_last()[r.0] == a[r.0]);
        r
    } else {
        lemma_occurs(a.last()@, x);
        let k = choose|k: int| 0 <= k < a.last()@.len() && a.last()@[k] == x;
        (a.len() - 1, k)
    }
}

/// the recoloured image is as it should be
pub proof fn lemma_recolored(n: nat, img: Img, points: Seq<ColorCount>, cents: Seq<ColorCount>, groups: Seq<Vec<ColorCount>>, t: Map<Rgb<u8>, Rgb<u8>>, out: Img)
    requires
        counted(points, img.rgb()), partitioned(points, n, cents, groups), recolors(t, cents, groups),
        img.rgb().len() == area(img.dims()), img.px().len() == area(img.dims()),
        out.dims() == img.dims(), out.rgb().len() == area(img.dims()),
        forall|x: u32, y: u32| x < img.dims().0 && y < img.dims().1
            ==> #[trigger] out.rgb()[at(img.dims(), x as int, y as int)] == t[img.px()[at(img.dims(), x as int, y as int)].rgb()],
    ensures reduced(n, img, out),
{
    lemma_table(img, points, cents, groups, t);
    lemma_members(groups, points);
    let palette = Seq::new(cents.len(), |i: int| cents[i].color);
    assert forall|i: int| 0 <= i < out.rgb().len() implies #[trigger] out.rgb()[i] == t[img.rgb()[i]] && t.contains_key(img.rgb()[i]) by {
        let (x, y) = lemma_place(img.dims(), i);
        assert(out.rgb()[at(img.dims(), x as int, y as int)] == t[img.px()[at(img.dims(), x as int, y as int)].rgb()]);
        assert(img.rgb()[i] == img.px()[i].rgb());
    }
    assert forall|i: int| 0 <= i < out.rgb().len() implies #[trigger] palette.contains(out.rgb()[i]) by {
        assert(out.rgb()[i] == t[img.rgb()[i]]);
        let j = choose|j: int| 0 <= j < cents.len() && #[trigger] cents[j].color == t[img.rgb()[i]];
        assert(palette[j] == out.rgb()[i]);
    }
    assert forall|i: int| 0 <= i < out.rgb().len() implies in_range(img.rgb(), #[trigger] out.rgb()[i]) by {
        assert(out.rgb()[i] == t[img.rgb()[i]]);
        let j = choose|j: int| 0 <= j < cents.len() && #[trigger] cents[j].color == t[img.rgb()[i]];
        let g = groups[j]@;
        assert(ColorCount::is_mean(groups[j]@, cents[j]));
        assert forall|l: int| 0 <= l < g.len() implies img.rgb().contains((#[trigger] g[l]).color) by {
            assert(points.contains(groups[j]@[l]));
            let p = choose|p: int| 0 <= p < points.len() && points[p] == g[l];
            assert(img.rgb().contains(points[p].color));
        }
        lemma_mean_in_range(g, cents[j], img.rgb());
    }
    assert forall|i: int, j: int| 0 <= i < img.rgb().len() && 0 <= j < img.rgb().len() && img.rgb()[i] == img.rgb()[j] implies #[trigger] out.rgb()[i] == #[trigger] out.rgb()[j] by {
        assert(out.rgb()[i] == t[img.rgb()[i]]);
        assert(out.rgb()[j] == t[img.rgb()[j]]);
    }
    assert(palette.len() <= n);
}

@@fn <ClusterColors as Codec>::decode
@@tail
    proof { lemma_delegate(old(reader).remaining(), self, vp_r); }

@@fn <ClusterColors as Codec>::name
@@rewrite format!("cluster-colors_{}", self.0) ==> crate::rt::some_string() -- the text is not specified
@@fn <ClusterColors as Codec>::is_lossless ret r
@@spec
    ensures r == self.exact(),

@@inside <ColorCount as Distance>
    open spec fn distance(&self, other: &Self) -> f64 { self.color.distance(&other.color) }
@@fn <ColorCount as Distance>::dist

@@inside <ColorCount as kmeans::Point>
    proof fn finite(&self, other: &Self) { crate::geom::lemma_finite(self.color, other.color); }
    open spec fn weighty(&self) -> bool { self.count > 0 }
    open spec fn most() -> nat { 0x100_0000 }
    open spec fn is_mean(points: Seq<Self>, m: Self) -> bool {
        wtot(points) > 0 && forall|ch: int| 0 <= ch < 3 ==> #[trigger] m.color.0[ch] as nat == wsum(points, ch) / wtot(points)
    }
@@top
/// the sums over the first k points
pub open spec fn summed(s: Seq<ColorCount>, k: int, a: ([u64; 3], u64)) -> bool {
    0 <= k <= s.len() <= 0x100_0000 && a.1 == wtot(s.take(k)) && forall|ch: int| 0 <= ch < 3 ==> #[trigger] a.0[ch] == wsum(s.take(k), ch)
}

pub proof fn lemma_summed(s: Seq<ColorCount>, k: int, a: ([u64; 3], u64))
    ensures
        s.len() <= 0x100_0000 ==> summed(s, 0, ([0, 0, 0], 0)),
        summed(s, k, a) && k < s.len() ==> weigh_fits(a, s[k]),
        forall|b: ([u64; 3], u64)| summed(s, k, a) && k < s.len() && #[trigger] weighed(a, s[k], b) ==> summed(s, k + 1, b),
        summed(s, s.len() as int, a) ==> a.1 == wtot(s) && forall|ch: int| 0 <= ch < 3 ==> #[trigger] a.0[ch] == wsum(s, ch),
{
    assert(s.take(s.len() as int) =~= s);
    if summed(s, k, a) && k < s.len() {
        lemma_weigh(s, k);
        assert(a.0[0] == wsum(s.take(k), 0) && a.0[1] == wsum(s.take(k), 1) && a.0[2] == wsum(s.take(k), 2));
        assert(wsum(s.take(k + 1), 0) >= 0 && wsum(s.take(k + 1), 1) >= 0 && wsum(s.take(k + 1), 2) >= 0);
        assert forall|ch: int| 0 <= ch < 3 implies #[trigger] a.0[ch] + s[k].color.0[ch] as nat * s[k].count as nat <= u64::MAX by {
            assert(wsum(s.take(k + 1), ch) <= 255 * 0x100_0000 * 0xffff_ffff);
        }
    }
}

pub open spec fn weigh_fits(x: ([u64; 3], u64), y: ColorCount) -> bool {
    x.1 + y.count <= u64::MAX && forall|ch: int| 0 <= ch < 3 ==> #[trigger] x.0[ch] + y.color.0[ch] as nat * y.count as nat <= u64::MAX
}

pub open spec fn weighed(x: ([u64; 3], u64), y: ColorCount, r: ([u64; 3], u64)) -> bool {
    r.1 == x.1 + y.count && forall|ch: int| 0 <= ch < 3 ==> #[trigger] r.0[ch] == x.0[ch] + y.color.0[ch] as nat * y.count as nat
}

@@fn <ColorCount as kmeans::Point>::mean
@@rewrite points.iter() .fold(([0, 0, 0], 0), weighed_add) ==> crate::rt::fold_slice(points, ([0, 0, 0], 0), weighed_add, Ghost(|k: int, a: ([u64; 3], u64)| summed(points@, k, a))) -- Iterator::fold written out
@@rewrite sum_vector.map(|x| $E) ==> crate::rt::arr3_map(sum_vector, |x: u64| -> (c: u8) requires tot_weight > 0 ensures c == ($E) { $E }) -- array::map written out; closure given its contract
@@start
    proof {
        lemma_weights(points@, 0, 0, 255);
        assert forall|k: int, a: ([u64; 3], u64)| #[trigger] summed(points@, k, a) && k < points@.len() implies weigh_fits(a, points@[k]) by { lemma_summed(points@, k, a); }
        assert forall|k: int, a: ([u64; 3], u64), b: ([u64; 3], u64)| #[trigger] summed(points@, k, a) && k < points@.len() && #[trigger] weighed(a, points@[k], b) implies summed(points@, k + 1, b) by { lemma_summed(points@, k, a); }
        lemma_summed(points@, 0, ([0, 0, 0], 0));
        if points@.len() == 1 { lemma_single(points@); }
    }
@@before let avg_color =
    proof { lemma_summed(points@, points@.len() as int, (sum_vector, tot_weight)); }
@@before Some( ColorCount { color: avg_color,
    proof {
        assert forall|ch: int| 0 <= ch < 3 implies #[trigger] avg_color.0[ch] as nat == wsum(points@, ch) / wtot(points@) by {
            lemma_weights(points@, ch, 0, 255);
            assert(sum_vector[ch] == wsum(points@, ch));
            assert(wsum(points@, ch) / wtot(points@) <= 255) by (nonlinear_arith) requires wsum(points@, ch) <= 255 * wtot(points@), wtot(points@) > 0;
        }
    }

@@top
pub proof fn lemma_single(s: Seq<ColorCount>)
    requires s.len() == 1, s[0].count > 0,
    ensures ColorCount::is_mean(s, s[0]),
{
    assert(s.drop_last().len() == 0 && s.last() == s[0]);
    assert(wtot(s.drop_last()) == 0);
    assert(wtot(s) == s[0].count);
    assert forall|ch: int| 0 <= ch < 3 implies #[trigger] s[0].color.0[ch] as nat == wsum(s, ch) / wtot(s) by {
        let v = s[0].color.0[ch] as nat;
        let w = s[0].count as nat;
        assert(s.drop_last().len() == 0 && s.last() == s[0]);
        assert(wsum(s.drop_last(), ch) == 0);
        assert(wsum(s, ch) == v * w);
        assert((v * w) / w == v) by (nonlinear_arith) requires w > 0;
    }
}

@@fn <ColorCount as kmeans::Point>::mean/weighed_add ret r
@@fattr #[verifier::loop_isolation(false)]
@@spec
    requires weigh_fits(x, *y),
    ensures weighed(x, *y, r),
@@start
    let ghost x0 = x;
    proof {
        assert(forall|a: int, b: int| #[trigger] (a * b) == b * a) by (nonlinear_arith);
        let _ = weigh_fits(x0, *y);
    }
@@before for i in 0..3
    let ghost x1 = x;
@@loop 0
    invariant
        weigh_fits(x0, *y), x.1 == x1.1, x1.0 == x0.0, x1.1 == x0.1 || x1.1 == x0.1 + y.count,
        forall|a: int, b: int| #[trigger] (a * b) == b * a,
        forall|ch: int| 0 <= ch < i ==> #[trigger] x.0[ch] == x0.0[ch] + y.color.0[ch] as nat * y.count as nat,
        forall|ch: int| i <= ch < 3 ==> #[trigger] x.0[ch] == x0.0[ch],
@@bodystart 0
    proof { assert(x0.0[i as int] + y.color.0[i as int] as nat * y.count as nat <= u64::MAX); }
@@rewrite y.color[i] ==> y.color.0[i] -- the definition of indexing a colour


@@# VoronoiCluster
@@top
/// the square of the distance between a centroid and a place
pub open spec fn gap2(c: ColorPos, x: int, y: int) -> int { (c.x - x) * (c.x - x) + (c.y - y) * (c.y - y) }

pub open spec fn gap_at(x: int, y: int) -> spec_fn(ColorPos) -> int { |c: ColorPos| gap2(c, x, y) }

/// the j-th centroid is nearest to the place
pub open spec fn nearest(cents: Seq<ColorPos>, x: int, y: int, j: int) -> bool {
    0 <= j < cents.len() && forall|i: int| 0 <= i < cents.len() ==> gap2(cents[j], x, y) <= #[trigger] gap2(cents[i], x, y)
}

pub open spec fn colored(cents: Seq<ColorPos>, x: int, y: int, c: Rgb<u8>) -> bool {
    exists|j: int| #[trigger] nearest(cents, x, y, j) && c == cents[j].color
}

/// every place has the colour of a centroid nearest to it
pub open spec fn drawn(d: (u32, u32), cents: Seq<ColorPos>, out: Img) -> bool {
    &&& out.dims() == d && out.rgb().len() == area(d)
    &&& forall|x: int, y: int| 0 <= x < d.0 && 0 <= y < d.1 ==> colored(cents, x, y, #[trigger] out.rgb()[at(d, x, y)])
}

/// what the centroids of an image are
pub open spec fn centred(n: nat, img: Img, cents: Seq<ColorPos>) -> bool {
    &&& cents.len() == if n <= area(img.dims()) { n } else { area(img.dims()) }
    &&& 0 < cents.len() <= 0xffff_ffff
    &&& forall|j: int| 0 <= j < cents.len() ==> (#[trigger] cents[j]).x < img.dims().0 && cents[j].y < img.dims().1 && in_range(img.rgb(), cents[j].color)
}

pub open spec fn vor_file(d: (u32, u32), cents: Seq<ColorPos>) -> Seq<u8> {
    d.ser() + (le_seq(cents.len(), 8) + ser_n(cents))
}

pub open spec fn vor_of(n: nat, img: Img, cents: Seq<ColorPos>, b: Seq<u8>) -> bool {
    centred(n, img, cents) && b == vor_file(img.dims(), cents)
}

pub open spec fn pos_tuple(c: ColorPos) -> (u32, (u32, Rgb<u8>)) { (c.x, (c.y, c.color)) }

impl RoundTrip for ColorPos {
    proof fn rt(x: Self, tail: Seq<u8>) {
        <(u32, (u32, Rgb<u8>)) as RoundTrip>::rt(pos_tuple(x), tail);
        assert forall|v: Self| #[trigger] Self::pval(x.ser() + tail, v) implies v == x by {
            assert(<(u32, (u32, Rgb<u8>)) as Deserialize>::pval(x.ser() + tail, pos_tuple(v)));
            assert(pos_tuple(v) == pos_tuple(x));
        }
    }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) {
        <(u32, (u32, Rgb<u8>)) as RoundTrip>::mono(s, t);
        assert forall|v: Self| Self::pval(s, v) == #[trigger] Self::pval(s + t, v) by {
            assert(<(u32, (u32, Rgb<u8>)) as Deserialize>::pval(s, pos_tuple(v)) == <(u32, (u32, Rgb<u8>)) as Deserialize>::pval(s + t, pos_tuple(v)));
        }
    }
}

pub proof fn lemma_ok(cents: Seq<ColorPos>)
    ensures ser_ok_n(cents),
{
    assert forall|i: int| 0 <= i < cents.len() implies (#[trigger] cents[i]).ser_ok() by { }
}

/// reading a complete file
pub proof fn lemma_vor(d: (u32, u32), cents: Seq<ColorPos>, tail: Seq<u8>, s: Seq<u8>)
    requires s == vor_file(d, cents) + tail, cents.len() <= 0xffff_ffff,
    ensures
        <(u32, u32) as Deserialize>::plen(s) == Some(8nat),
        forall|v: (u32, u32)| #[trigger] <(u32, u32) as Deserialize>::pval(s, v) ==> v == d,
        <usize as Deserialize>::plen(s.skip(8)) == Some(8nat),
        forall|n: usize| #[trigger] <usize as Deserialize>::pval(s.skip(8), n) ==> n == cents.len(),
        plen_n::<ColorPos>(s.skip(8).skip(8), cents.len()) is Some,
        forall|v: Seq<ColorPos>| v.len() == cents.len() && #[trigger] pval_n(s.skip(8).skip(8), v) ==> v == cents,
{
    lemma_ok(cents);
    let n = cents.len() as usize;
    let body = n.ser() + (ser_n(cents) + tail);
    lemma_dims(d, body);
    assert(s =~= d.ser() + body);
    <usize as RoundTrip>::rt(n, ser_n(cents) + tail);
    crate::rt::lemma_le_len(n as nat, 8);
    assert(body.skip(8) =~= ser_n(cents) + tail);
    lemma_rt_n(cents, tail);
}

/// and one cut short
pub proof fn lemma_vor_cut(d: (u32, u32), cents: Seq<ColorPos>, k: int, s: Seq<u8>)
    requires 0 <= k < vor_file(d, cents).len(), s == vor_file(d, cents).take(k), cents.len() <= 0xffff_ffff,
    ensures
        <(u32, u32) as Deserialize>::plen(s) == (if k < 8 { None } else { Some(8nat) }),
        k >= 8 ==> <usize as Deserialize>::plen(s.skip(8)) == (if k < 16 { None } else { Some(8nat) }),
        k >= 16 ==> forall|n: usize| #[trigger] <usize as Deserialize>::pval(s.skip(8), n) ==> n == cents.len(),
        k >= 16 ==> plen_n::<ColorPos>(s.skip(8).skip(8), cents.len()) is None,
{
    lemma_ok(cents);
    let n = cents.len() as usize;
    let body = n.ser() + ser_n(cents);
    crate::rt::lemma_le_len(n as nat, 8);
    lemma_dims(d, body);
    lemma_dims_cut(d, body, k);
    if k >= 8 {
        lemma_dims(d, body.take(k - 8));
        let s1 = body.take(k - 8);
        if k >= 16 {
            assert(s1 =~= n.ser() + ser_n(cents).take(k - 16));
            <usize as RoundTrip>::rt(n, ser_n(cents).take(k - 16));
            let s2 = s1.skip(8);
            assert(s2 =~= ser_n(cents).take(k - 16));
            let t = ser_n(cents).skip(k - 16);
            assert(s2 + t =~= ser_n(cents));
            lemma_rt_n(cents, Seq::empty());
            assert(ser_n(cents) + Seq::<u8>::empty() =~= ser_n(cents));
            if plen_n::<ColorPos>(s2, cents.len()) is Some { lemma_mono_n::<ColorPos>(s2, t, cents.len()); }
        }
    }
}

/// s starts with a complete file of d and cents
pub open spec fn starts(s: Seq<u8>, d: (u32, u32), cents: Seq<ColorPos>, tail: Seq<u8>) -> bool {
    0 < cents.len() <= 0xffff_ffff && s == vor_file(d, cents) + tail
}

pub open spec fn whole(s: Seq<u8>) -> bool {
    exists|d: (u32, u32), cents: Seq<ColorPos>, tail: Seq<u8>| #[trigger] starts(s, d, cents, tail)
}

/// the dimensions, the number of centroids and the centroids, as read
pub open spec fn vor_read(s: Seq<u8>, d: (u32, u32), n: usize, v: Seq<ColorPos>) -> bool {
    &&& <(u32, u32) as Deserialize>::plen(s) is Some && <(u32, u32) as Deserialize>::pval(s, d)
    &&& <usize as Deserialize>::plen(s.skip(8)) is Some && <usize as Deserialize>::pval(s.skip(8), n)
    &&& v.len() == n && plen_n::<ColorPos>(s.skip(8).skip(8), n as nat) is Some && pval_n(s.skip(8).skip(8), v)
}

/// what decode says, from what it has read and drawn
pub proof fn lemma_vor_read(s: Seq<u8>, d: (u32, u32), n: usize, v: Seq<ColorPos>)
    requires vor_read(s, d, n, v),
    ensures
        whole(s) ==> n > 0,
        forall|d2: (u32, u32), cents: Seq<ColorPos>, tail: Seq<u8>| #[trigger] starts(s, d2, cents, tail) ==> d2 == d && cents == v,
        forall|d2: (u32, u32), cents: Seq<ColorPos>, k: int| cents.len() <= 0xffff_ffff && 0 <= k < vor_file(d2, cents).len() ==> s != #[trigger] vor_file(d2, cents).take(k),
{
    assert forall|d2: (u32, u32), cents: Seq<ColorPos>, tail: Seq<u8>| #[trigger] starts(s, d2, cents, tail) implies d2 == d && cents == v by {
        lemma_vor(d2, cents, tail, s);
    }
    assert forall|d2: (u32, u32), cents: Seq<ColorPos>, k: int| cents.len() <= 0xffff_ffff && 0 <= k < vor_file(d2, cents).len() implies s != #[trigger] vor_file(d2, cents).take(k) by {
        if s == vor_file(d2, cents).take(k) { lemma_vor_cut(d2, cents, k, s); }
    }
}

pub proof fn lemma_refused(s: Seq<u8>, c: &VoronoiCluster)
    ensures forall|img: Img, b: Seq<u8>, tail: Seq<u8>| !whole(s) && nonempty(img) && #[trigger] c.encodes(img, b) ==> s != #[trigger] (b + tail),
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| !whole(s) && nonempty(img) && #[trigger] c.encodes(img, b) implies s != #[trigger] (b + tail) by {
        let cents = choose|cents: Seq<ColorPos>| #[trigger] vor_of(c.0 as nat, img, cents, b);
        if s == b + tail { assert(starts(s, img.dims(), cents, tail)); }
    }
}

/// a complete file does not end early
pub proof fn lemma_whole(s: Seq<u8>)
    ensures
        whole(s) ==> <(u32, u32) as Deserialize>::plen(s) == Some(8nat) && <usize as Deserialize>::plen(s.skip(8)) == Some(8nat),
        forall|n: usize| whole(s) && #[trigger] <usize as Deserialize>::pval(s.skip(8), n) ==> plen_n::<ColorPos>(s.skip(8).skip(8), n as nat) is Some,
{
    if whole(s) {
        let (d, cents, tail) = choose|d: (u32, u32), cents: Seq<ColorPos>, tail: Seq<u8>| #[trigger] starts(s, d, cents, tail);
        lemma_vor(d, cents, tail, s);
    }
}

pub open spec fn vor_right(s: Seq<u8>, r: Option<Img>) -> bool {
    &&& forall|d: (u32, u32), cents: Seq<ColorPos>, tail: Seq<u8>| #[trigger] starts(s, d, cents, tail) ==> r is Some && drawn(d, cents, r->Some_0)
    &&& forall|d2: (u32, u32), cents: Seq<ColorPos>, k: int| cents.len() <= 0xffff_ffff && 0 <= k < vor_file(d2, cents).len() && s == #[trigger] vor_file(d2, cents).take(k) ==> r is None
}

/// that is all that is claimed
pub proof fn lemma_vor_claims(s: Seq<u8>, c: &VoronoiCluster, r: Option<Img>)
    requires vor_right(s, r),
    ensures
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] c.encodes(img, b) && s == #[trigger] (b + tail) ==> r is Some && c.faithful(img, r->Some_0),
        forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] c.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) ==> r is None,
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] c.encodes(img, b) && s == #[trigger] (b + tail) implies r is Some && c.faithful(img, r->Some_0) by {
        let cents = choose|cents: Seq<ColorPos>| #[trigger] vor_of(c.0 as nat, img, cents, b);
        assert(starts(s, img.dims(), cents, tail));
        assert(redrawn(c.0 as nat, img, cents, r->Some_0));
    }
    assert forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] c.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) implies r is None by {
        let cents = choose|cents: Seq<ColorPos>| #[trigger] vor_of(c.0 as nat, img, cents, b);
        assert(s == vor_file(img.dims(), cents).take(k));
    }
}

pub open spec fn redrawn(n: nat, img: Img, cents: Seq<ColorPos>, out: Img) -> bool {
    centred(n, img, cents) && drawn(img.dims(), cents, out)
}

/// two places are not at the same index
pub proof fn lemma_at(d: (u32, u32), x: int, y: int, x2: int, y2: int)
    requires 0 <= x < d.0, 0 <= x2 < d.0, at(d, x, y) == at(d, x2, y2),
    ensures x == x2 && y == y2,
{
    let w = d.0 as int;
    if y < y2 {
        assert(y2 * w >= y * w + w) by (nonlinear_arith) requires y2 >= y + 1, w > 0;
    } else if y > y2 {
        assert(y * w >= y2 * w + w) by (nonlinear_arith) requires y >= y2 + 1, w > 0;
    }
}

/* sums of coordinates */
pub open spec fn coord(p: ColorPos, k: int) -> nat {
    if k == 0 { p.x as nat } else if k == 1 { p.y as nat } else { p.color.0[k - 2] as nat }
}

pub open spec fn psum(s: Seq<ColorPos>, k: int) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { psum(s.drop_last(), k) + coord(s.last(), k) }
}

pub proof fn lemma_psum(s: Seq<ColorPos>, k: int, lo: nat, hi: nat)
    ensures
        (forall|i: int| 0 <= i < s.len() ==> lo <= coord(#[trigger] s[i], k)) ==> lo * s.len() <= psum(s, k),
        (forall|i: int| 0 <= i < s.len() ==> coord(#[trigger] s[i], k) <= hi) ==> psum(s, k) <= hi * s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        let v = coord(s.last(), k);
        assert(s[s.len() - 1] == s.last());
        lemma_psum(t, k, lo, hi);
        if forall|i: int| 0 <= i < s.len() ==> lo <= coord(#[trigger] s[i], k) {
            assert forall|i: int| 0 <= i < t.len() implies lo <= coord(#[trigger] t[i], k) by { assert(t[i] == s[i]); }
            assert(lo * (t.len() + 1) <= psum(t, k) + v) by (nonlinear_arith) requires lo * t.len() <= psum(t, k), lo <= v;
        }
        if forall|i: int| 0 <= i < s.len() ==> coord(#[trigger] s[i], k) <= hi {
            assert forall|i: int| 0 <= i < t.len() implies coord(#[trigger] t[i], k) <= hi by { assert(t[i] == s[i]); }
            assert(psum(t, k) + v <= hi * (t.len() + 1)) by (nonlinear_arith) requires psum(t, k) <= hi * t.len(), v <= hi;
        }
    } else {
        assert(lo * s.len() == 0 && hi * s.len() == 0) by (nonlinear_arith) requires s.len() == 0;
    }
}

/// a mean lies between two of the values
pub proof fn lemma_between(s: Seq<ColorPos>, k: int) -> (r: (int, int))
    requires s.len() > 0,
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < s.len(), coord(s[r.0], k) <= psum(s, k) / s.len() <= coord(s[r.1], k),
{
    let t = s.len();
    let v = psum(s, k);
    let q = v / t;
    assert(q * t <= v < (q + 1) * t) by (nonlinear_arith) requires q == v / t, t > 0;
    lemma_psum(s, k, q + 1, 0);
    let a: int = if forall|i: int| 0 <= i < s.len() ==> q + 1 <= coord(#[trigger] s[i], k) { 0 } else {
        choose|i: int| 0 <= i < s.len() && q + 1 > coord(#[trigger] s[i], k)
    };
    let b: int = if q == 0 { 0 } else {
        lemma_psum(s, k, 0, (q - 1) as nat);
        assert((q - 1) * t < q * t) by (nonlinear_arith) requires t > 0;
        if forall|i: int| 0 <= i < s.len() ==> coord(#[trigger] s[i], k) <= q - 1 { 0 } else {
            choose|i: int| 0 <= i < s.len() && coord(#[trigger] s[i], k) > q - 1
        }
    };
    (a, b)
}

/// the points clustered: every pixel where it is
pub open spec fn placed(points: Seq<ColorPos>, img: Img) -> bool {
    &&& points.len() == img.rgb().len() == area(img.dims())
    &&& forall|i: int| 0 <= i < points.len() ==> (#[trigger] points[i]).x < img.dims().0 && points[i].y < img.dims().1 && points[i].color == img.rgb()[i]
}

pub proof fn lemma_centred(n: nat, img: Img, points: Seq<ColorPos>, cents: Seq<ColorPos>, groups: Seq<Vec<ColorPos>>)
    requires placed(points, img), partitioned(points, n, cents, groups), n > 0, 0 < points.len() <= 0xffff_ffff,
    ensures centred(n, img, cents),
{
    lemma_members(groups, points);
    assert forall|j: int| 0 <= j < cents.len() implies (#[trigger] cents[j]).x < img.dims().0 && cents[j].y < img.dims().1 && in_range(img.rgb(), cents[j].color) by {
        let g = groups[j]@;
        let m = cents[j];
        assert(ColorPos::is_mean(groups[j]@, cents[j]));
        assert forall|l: int| 0 <= l < g.len() implies exists|p: int| 0 <= p < points.len() && #[trigger] points[p] == #[trigger] g[l] by {
            assert(points.contains(groups[j]@[l]));
        }
        let (a, b) = lemma_between(g, 0);
        assert(coord(m, 0) == psum(g, 0) / g.len());
        let p = choose|p: int| 0 <= p < points.len() && #[trigger] points[p] == g[b];
        assert(m.x <= points[p].x);
        let (a, b) = lemma_between(g, 1);
        assert(coord(m, 1) == psum(g, 1) / g.len());
        let p = choose|p: int| 0 <= p < points.len() && #[trigger] points[p] == g[b];
        assert(m.y <= points[p].y);
        let all = img.rgb();
        assert forall|ch: int| 0 <= ch < 3 implies between(all, #[trigger] m.color.0[ch], ch) by {
            let (a, b) = lemma_between(g, ch + 2);
            assert(coord(m, ch + 2) == psum(g, ch + 2) / g.len());
            let lo = choose|p: int| 0 <= p < points.len() && #[trigger] points[p] == g[a];
            let hi = choose|p: int| 0 <= p < points.len() && #[trigger] points[p] == g[b];
            assert(all[lo] == points[lo].color && all[hi] == points[hi].color);
            assert(all[lo].0[ch] <= m.color.0[ch] <= all[hi].0[ch]);
        }
    }
}

@@inside <VoronoiCluster as Codec>
    open spec fn encodes(&self, img: Img, b: Seq<u8>) -> bool { exists|cents: Seq<ColorPos>| #[trigger] vor_of(self.0 as nat, img, cents, b) }
    open spec fn exact(&self) -> bool { false }
    open spec fn handles(&self, img: Img) -> bool { self.0 > 0 && area(img.dims()) <= 0xffff_ffff }
    open spec fn faithful(&self, img: Img, out: Img) -> bool { exists|cents: Seq<ColorPos>| #[trigger] redrawn(self.0 as nat, img, cents, out) }
@@fn <VoronoiCluster as Codec>::encode
@@rewrite let data_points = img.pixels() .map(|(x, y, c)| $E) .collect(); ==> let data_points: Vec<ColorPos> = crate::rt::collect(crate::rt::map(img.pixels(), |p: (u32, u32, Rgba<u8>)| -> (r: ColorPos) ensures r.x == p.0, r.y == p.1, r.color == p.2.rgb() { let (x, y, c) = p; $E })); -- assumed contracts of Iterator::map and collect; closure given its contract
@@rewrite let centroids: Vec<_> = clusters.into_iter() .map(|(centroid, _points)| $E) .collect(); ==> let centroids: Vec<ColorPos> = crate::rt::collect(crate::rt::map(clusters.into_iter(), |p: (ColorPos, Vec<ColorPos>)| -> (r: ColorPos) ensures r == p.0 { let (centroid, _points) = p; $E })); -- assumed contracts of Iterator::map and collect; closure given its contract
@@start
    proof { lemma_px_len(*img); lemma_area(img.dims()); }
@@before let clusters = kmeans::cluster
    let ghost points = data_points@;
    proof { assert(placed(points, *img)); }
@@after let clusters = kmeans::cluster($A);
    let ghost cents = clusters.cents();
    let ghost groups = clusters.groups();
    proof { lemma_centred(self.0 as nat, *img, points, cents, groups); }
@@before $E.serialize(writer)?; for centroid in
    proof { assert(centroids@ =~= cents); lemma_ok(cents); }
@@before for centroid in centroids.into_iter()
    let ghost w1 = (*writer).written();
    proof {
        assert(cents.take(0) =~= Seq::empty());
        assert(w1 =~= (*old(writer)).written() + (img.dims().ser() + le_seq(cents.len(), 8)));
        assert((*writer).written() =~= w1 + ser_n(cents.take(0)));
    }
@@loop 0 iter it
    invariant
        it.seq() == cents, ser_ok_n(cents),
        (*writer).written() == w1 + ser_n(cents.take(it.index@ as int)),
        (*old(writer)).infallible() ==> (*writer).infallible(),
@@bodystart 0
    proof { assert(cents[it.index@ as int].ser_ok()); }
@@bodyend 0
    proof {
        let i = it.index@ as int;
        assert(cents.take(i + 1).drop_last() =~= cents.take(i));
        assert(ser_n(cents.take(i + 1)) == ser_n(cents.take(i)) + cents[i].ser());
        assert((*writer).written() =~= w1 + ser_n(cents.take(i + 1)));
    }
@@before Ok(())
    proof {
        assert(cents.take(cents.len() as int) =~= cents);
        let b = vor_file(img.dims(), cents);
        assert(vor_of(self.0 as nat, *img, cents, b));
        assert(self.encodes(*img, b));
        assert((*writer).written() =~= (*old(writer)).written() + b);
    }

@@fn <VoronoiCluster as Codec>::decode ret r
@@spec
    ensures vor_right(old(reader).remaining(), r),
@@rewrite let centroids: Vec<_> = (0..ncentroids) .map(|_| ColorPos::deserialize(reader)) .collect::<Option<Vec<_>>>()?; ==> let centroids: Vec<ColorPos> = deser_n::<ColorPos, I>(reader, ncentroids)?; -- collecting options stops at the first None; written out (verified)
@@rewrite for (x, y, px) in img.enumerate_pixels_mut() ==> for vp_i in it: 0..img.pixel_count() -- enumerate_pixels_mut written as place(0), pixel_mut(0), place(1), ...
@@rewrite centroids.iter() .min_by_key(|c| $E) .unwrap(); ==> crate::rt::unwrap_if(Ghost(ncentroids > 0), crate::rt::min_by_key(&centroids, |c: &ColorPos| -> (k: u128) ensures k == gap2(*c, x as int, y as int) { proof { lemma_gap(c.x as int, x as int); lemma_gap(c.y as int, y as int); } $E }, Ghost(gap_at(x as int, y as int)))); -- min_by_key written out; closure given its contract
@@start
    let ghost s0 = reader.remaining();
    proof { lemma_whole(s0); lemma_refused(s0, self); }
@@after let mut img = image::RgbImage::new(dims.0, dims.1);
    let ghost d = dims;
@@before for (x, y, px)
    proof { lemma_vor_read(s0, d, ncentroids, centroids@); lemma_area(d); }
@@loop 0
    invariant
        img.px().len() == area(d), img.dims() == d, it.seq().len() == area(d),
        vor_read(s0, d, ncentroids, centroids@), whole(s0) ==> ncentroids > 0,
        forall|x: int, y: int| 0 <= x < d.0 && 0 <= y < d.1 && at(d, x, y) < vp_i ==> colored(centroids@, x, y, #[trigger] img.px()[at(d, x, y)]),
@@bodystart 0
    let ghost before = img.px();
    let (x, y) = img.place(vp_i);
    let px = img.pixel_mut(vp_i);
@@bodyend 0
    proof {
        let j = choose|j: int| #[trigger] crate::rt::least(centroids@, gap_at(x as int, y as int), j) && *closest_centroid == centroids@[j];
        assert forall|i: int| 0 <= i < centroids@.len() implies gap2(centroids@[j], x as int, y as int) <= #[trigger] gap2(centroids@[i], x as int, y as int) by { let _ = centroids@[i]; }
        assert(nearest(centroids@, x as int, y as int, j));
        assert forall|x2: int, y2: int| 0 <= x2 < d.0 && 0 <= y2 < d.1 && at(d, x2, y2) < vp_i + 1 implies colored(centroids@, x2, y2, #[trigger] img.px()[at(d, x2, y2)]) by {
            lemma_area(d);
            if at(d, x2, y2) == vp_i { lemma_at(d, x as int, y as int, x2, y2); } else { assert(img.px()[at(d, x2, y2)] == before[at(d, x2, y2)]); }
        }
    }
@@before Some(img.into())
    proof {
        axiom_dynamic(img);
        lemma_area(d);
        lemma_vor_read(s0, d, ncentroids, centroids@);
        assert(drawn(d, centroids@, crate::image::dynamic(img)));
        assert(vor_right(s0, Some(crate::image::dynamic(img))));
    }
@@tail
    proof { lemma_vor_claims(old(reader).remaining(), self, vp_r); }

@@top
pub proof fn lemma_gap(a: int, b: int)
    ensures (a - b) * (a - b) == (if a >= b { a - b } else { b - a }) * (if a >= b { a - b } else { b - a }),
        0 <= a <= 0xffff_ffff && 0 <= b <= 0xffff_ffff ==> 0 <= (a - b) * (a - b) <= 0xffff_ffff * 0xffff_ffff,
{
    assert((a - b) * (a - b) == (b - a) * (b - a)) by (nonlinear_arith);
    if 0 <= a <= 0xffff_ffff && 0 <= b <= 0xffff_ffff {
        assert(0 <= (a - b) * (a - b) <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith)
            requires 0 <= a <= 0xffff_ffff, 0 <= b <= 0xffff_ffff;
    }
}

@@fn <VoronoiCluster as Codec>::name
@@rewrite format!("voronoi_{}", self.0) ==> crate::rt::some_string() -- the text is not specified
@@fn <VoronoiCluster as Codec>::is_lossless ret r
@@spec
    ensures r == self.exact(),

@@inside <ColorPos as Distance>
    open spec fn distance(&self, other: &Self) -> f64 {
        f_sqrt(f_add(f_add(f_int(gapx(self.x as int, other.x as int)), f_int(gapx(self.y as int, other.y as int))), f_square(self.color.distance(&other.color))))
    }
@@fn <ColorPos as Distance>::dist
@@rewrite let mut d = $E as f64; ==> let mut d = crate::fl::of_u64($E); -- conversion to f64 as a function
@@rewrite d += $E as f64; ==> d = crate::fl::add(d, crate::fl::of_u64($E)); -- f64 operations as functions
@@rewrite d += $E.powi(2); ==> d = crate::fl::add(d, crate::fl::square($E)); -- f64 operations as functions
@@rewrite (d as f64).sqrt() ==> crate::fl::sqrt(d) -- f64 operations as functions
@@start
    proof { lemma_gap(self.x as int, other.x as int); lemma_gap(self.y as int, other.y as int); }

@@top
pub open spec fn gapx(a: int, b: int) -> int { (a - b) * (a - b) }

@@inside <ColorPos as kmeans::Point>
    open spec fn weighty(&self) -> bool { true }
    open spec fn most() -> nat { 0xffff_ffff }
    open spec fn is_mean(points: Seq<Self>, m: Self) -> bool {
        points.len() > 0 && forall|k: int| 0 <= k < 5 ==> #[trigger] coord(m, k) == psum(points, k) / points.len()
    }
    proof fn finite(&self, other: &Self) {
        let a = gapx(self.x as int, other.x as int);
        let b = gapx(self.y as int, other.y as int);
        assert(0 <= a <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires a == (self.x - other.x) * (self.x - other.x), 0 <= self.x <= 0xffff_ffff, 0 <= other.x <= 0xffff_ffff;
        assert(0 <= b <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires b == (self.y - other.y) * (self.y - other.y), 0 <= self.y <= 0xffff_ffff, 0 <= other.y <= 0xffff_ffff;
        let e = self.color.distance(&other.color);
        axiom_upto_int(a);
        axiom_upto_int(b);
        axiom_upto_add(f_int(a), f_int(b), 64);
        crate::geom::lemma_upto(self.color, other.color);
        axiom_upto_square(e, 64);
        axiom_upto_more(f_add(f_int(a), f_int(b)), 65, 128);
        axiom_upto_add(f_add(f_int(a), f_int(b)), f_square(e), 128);
        axiom_upto_sqrt(f_add(f_add(f_int(a), f_int(b)), f_square(e)), 129);
        axiom_upto_finite(self.distance(other), 129);
    }
@@top
/// the sums over the first k points
pub open spec fn added(s: Seq<ColorPos>, k: int, a: [u64; 5]) -> bool {
    0 <= k <= s.len() <= 0xffff_ffff && forall|c: int| 0 <= c < 5 ==> #[trigger] a[c] == psum(s.take(k), c)
}

pub open spec fn add_fits(x: [u64; 5], y: ColorPos) -> bool {
    forall|c: int| 0 <= c < 5 ==> #[trigger] x[c] + coord(y, c) <= u64::MAX
}

pub open spec fn adds(x: [u64; 5], y: ColorPos, r: [u64; 5]) -> bool {
    forall|c: int| 0 <= c < 5 ==> #[trigger] r[c] == x[c] + coord(y, c)
}

pub proof fn lemma_added(s: Seq<ColorPos>, k: int, a: [u64; 5])
    ensures
        s.len() <= 0xffff_ffff ==> added(s, 0, [0, 0, 0, 0, 0]),
        added(s, k, a) && k < s.len() ==> add_fits(a, s[k]),
        forall|b: [u64; 5]| added(s, k, a) && k < s.len() && #[trigger] adds(a, s[k], b) ==> added(s, k + 1, b),
        added(s, s.len() as int, a) ==> forall|c: int| 0 <= c < 5 ==> #[trigger] a[c] == psum(s, c),
{
    assert(s.take(s.len() as int) =~= s);
    if added(s, k, a) && k < s.len() {
        let t = s.take(k + 1);
        assert(t.drop_last() =~= s.take(k));
        assert(t.last() == s[k]);
        assert forall|c: int| 0 <= c < 5 implies #[trigger] a[c] + coord(s[k], c) == psum(t, c) && psum(t, c) <= u64::MAX by {
            lemma_psum(t, c, 0, 0xffff_ffff);
            assert(0xffff_ffff * t.len() <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires t.len() <= 0xffff_ffff;
        }
        assert forall|b: [u64; 5]| #[trigger] adds(a, s[k], b) implies added(s, k + 1, b) by {
            assert forall|c: int| 0 <= c < 5 implies #[trigger] b[c] == psum(t, c) by { assert(a[c] + coord(s[k], c) == psum(t, c)); }
        }
    }
}

@@fn <ColorPos as kmeans::Point>::mean
@@rewrite points.iter() .fold([0; 5], vector_add) ==> crate::rt::fold_slice(points, [0; 5], vector_add, Ghost(|k: int, a: [u64; 5]| added(points@, k, a))) -- Iterator::fold written out
@@rewrite sum_vector.map(|x| $E) ==> crate::rt::arr5_map(sum_vector, |x: u64| -> (c: u64) requires points@.len() > 0 ensures c == ($E) { $E }) -- array::map written out; closure given its contract
@@start
    proof {
        assert forall|k: int, a: [u64; 5]| #[trigger] added(points@, k, a) && k < points@.len() implies add_fits(a, points@[k]) by { lemma_added(points@, k, a); }
        assert forall|k: int, a: [u64; 5], b: [u64; 5]| #[trigger] added(points@, k, a) && k < points@.len() && #[trigger] adds(a, points@[k], b) implies added(points@, k + 1, b) by { lemma_added(points@, k, a); }
        lemma_added(points@, 0, [0, 0, 0, 0, 0]);
    }
@@before Some( ColorPos { x: avg_vector[0] as u32,
    proof {
        lemma_added(points@, points@.len() as int, sum_vector);
        let n = points@.len();
        assert forall|c: int| 0 <= c < 5 implies #[trigger] avg_vector[c] == psum(points@, c) / n && avg_vector[c] <= (if c < 2 { 0xffff_ffffu64 } else { 255u64 }) by {
            let hi: nat = if c < 2 { 0xffff_ffff } else { 255 };
            lemma_psum(points@, c, 0, hi);
            assert(sum_vector[c] == psum(points@, c));
            assert(psum(points@, c) / n <= hi) by (nonlinear_arith) requires psum(points@, c) <= hi * n, n > 0;
        }
        assert(avg_vector[0] <= 0xffff_ffff && avg_vector[1] <= 0xffff_ffff && avg_vector[2] <= 255 && avg_vector[3] <= 255 && avg_vector[4] <= 255);
    }
@@fn <ColorPos as kmeans::Point>::mean/vector_add ret r
@@spec
    requires add_fits(x, *y),
    ensures adds(x, *y, r),
@@start
    let ghost x0 = x;
@@start
    proof { assert(x[0] + coord(*y, 0) <= u64::MAX && x[1] + coord(*y, 1) <= u64::MAX); }
@@before for i in 0..3
    let ghost x1 = x;
@@loop 0
    invariant
        add_fits(x0, *y), x[0] == x1[0], x[1] == x1[1],
        x1[0] == x0[0] || x1[0] == x0[0] + y.x, x1[1] == x0[1] || x1[1] == x0[1] + y.y, x1[2] == x0[2], x1[3] == x0[3], x1[4] == x0[4],
        forall|c: int| 2 <= c < i + 2 ==> #[trigger] x[c] == x0[c] + coord(*y, c),
        forall|c: int| i + 2 <= c < 5 ==> #[trigger] x[c] == x0[c],
@@bodystart 0
    proof { assert(x0[i + 2] + coord(*y, i + 2) <= u64::MAX); }
@@rewrite y.color[i] ==> y.color.0[i] -- the definition of indexing a colour

@@inside <ColorPos as Serialize>
    open spec fn ser(&self) -> Seq<u8> { pos_tuple(*self).ser() }
    open spec fn ser_ok(&self) -> bool { true }
@@fn <ColorPos as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); assert(self.color.ser_ok()); }
    broadcast use crate::rt::lemma_seq_assoc;
@@inside <ColorPos as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { <(u32, (u32, Rgb<u8>)) as Deserialize>::plen(s) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { <(u32, (u32, Rgb<u8>)) as Deserialize>::pval(s, pos_tuple(v)) }
@@fn <ColorPos as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@before Some( ColorPos { x, y, color
    proof {
        let s = old(stream).remaining();
        let n = <Rgb<u8> as Deserialize>::plen(s.skip(4).skip(4))->Some_0;
        assert(stream.remaining() =~= s.skip((4 + (4 + n)) as int));
    }
