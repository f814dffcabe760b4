@@module kmeans src/kmeans.rs

@@grewrite use std::cell::Cell; ==>  -- see rt::SmallCell
@@grewrite use rand::Rng; ==>  -- random choices through rt::any_below
@@grewrite use rand::seq::SliceRandom; ==>  -- random choices through rt::any_below
@@grewrite Cell<usize> ==> crate::rt::SmallCell -- Cell through its assumed contract
@@grewrite Cell::new ==> crate::rt::SmallCell::new -- Cell through its assumed contract
@@grewrite impl<'a> Drop for IterAndRecord<'a> ==> impl<'a> IterAndRecord<'a> -- the destructor is called where the loop over the iterator ends

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::utils::{occurs, lemma_occurs};
use crate::fl::*;

/* how often x occurs in a collection of collections, and how much there is in all */
pub open spec fn held<T>(a: Seq<Vec<T>>, x: T) -> nat
    decreases a.len(),
{
    if a.len() == 0 { 0 } else { held(a.drop_last(), x) + occurs(a.last()@, x) }
}

pub open spec fn total<T>(a: Seq<Vec<T>>) -> nat
    decreases a.len(),
{
    if a.len() == 0 { 0 } else { total(a.drop_last()) + a.last()@.len() }
}

/// the same points, as often
pub open spec fn same_points<T>(a: Seq<Vec<T>>, points: Seq<T>) -> bool {
    &&& total(a) == points.len()
    &&& forall|x: T| #[trigger] held(a, x) == occurs(points, x)
}

pub open spec fn none_empty<T>(a: Seq<Vec<T>>) -> bool {
    forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@.len() > 0
}

pub proof fn lemma_held_update<T>(a: Seq<Vec<T>>, i: int, w: Vec<T>)
    requires 0 <= i < a.len(),
    ensures
        total(a.update(i, w)) + a[i]@.len() == total(a) + w@.len(),
        forall|x: T| #![trigger held(a.update(i, w), x)] #![trigger held(a, x)] held(a.update(i, w), x) + occurs(a[i]@, x) == held(a, x) + occurs(w@, x),
    decreases a.len(),
{
    let b = a.update(i, w);
    if i == a.len() - 1 {
        assert(b.drop_last() =~= a.drop_last());
    } else {
        assert(b.drop_last() =~= a.drop_last().update(i, w));
        lemma_held_update(a.drop_last(), i, w);
    }
    assert forall|x: T| #![trigger held(b, x)] #![trigger held(a, x)] held(b, x) + occurs(a[i]@, x) == held(a, x) + occurs(w@, x) by {
        assert(held(b, x) == held(b.drop_last(), x) + occurs(b.last()@, x));
        assert(held(a, x) == held(a.drop_last(), x) + occurs(a.last()@, x));
    }
}

pub proof fn lemma_held_push<T>(a: Seq<Vec<T>>, w: Vec<T>)
    ensures
        total(a.push(w)) == total(a) + w@.len(),
        forall|x: T| #[trigger] held(a.push(w), x) == held(a, x) + occurs(w@, x),
{
    assert(a.push(w).drop_last() =~= a);
}

/// all held is in one of the collections
pub proof fn lemma_held_in<T>(a: Seq<Vec<T>>, i: int)
    requires 0 <= i < a.len(),
    ensures
        a[i]@.len() <= total(a),
        forall|x: T| occurs(a[i]@, x) <= #[trigger] held(a, x),
    decreases a.len(),
{
    if i < a.len() - 1 {
        lemma_held_in(a.drop_last(), i);
        assert forall|x: T| occurs(a[i]@, x) <= #[trigger] held(a, x) by {
            assert(occurs(a.drop_last()[i]@, x) <= held(a.drop_last(), x));
        }
    }
}

pub proof fn lemma_empties<T>(a: Seq<Vec<T>>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@.len() == 0,
    ensures total(a) == 0, forall|x: T| #[trigger] held(a, x) == 0,
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_empties(a.drop_last());
        assert forall|x: T| #[trigger] held(a, x) == 0 by { assert(held(a.drop_last(), x) == 0); }
    }
}

pub proof fn lemma_occurs_push<T>(s: Seq<T>, y: T)
    ensures forall|x: T| #[trigger] occurs(s.push(y), x) == occurs(s, x) + if x == y { 1nat } else { 0nat },
{
    assert(s.push(y).drop_last() =~= s);
}

pub proof fn lemma_occurs_add<T>(s: Seq<T>, t: Seq<T>)
    ensures forall|x: T| #[trigger] occurs(s + t, x) == occurs(s, x) + occurs(t, x),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
    } else {
        lemma_occurs_add(s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert forall|x: T| #[trigger] occurs(s + t, x) == occurs(s, x) + occurs(t, x) by {
            assert(occurs(s + t.drop_last(), x) == occurs(s, x) + occurs(t.drop_last(), x));
        }
    }
}

pub proof fn lemma_occurs_update<T>(s: Seq<T>, i: int, y: T)
    requires 0 <= i < s.len(),
    ensures forall|x: T| #[trigger] occurs(s.update(i, y), x) + (if x == s[i] { 1nat } else { 0nat }) == occurs(s, x) + if x == y { 1nat } else { 0nat },
    decreases s.len(),
{
    let b = s.update(i, y);
    if i == s.len() - 1 {
        assert(b.drop_last() =~= s.drop_last());
    } else {
        assert(b.drop_last() =~= s.drop_last().update(i, y));
        lemma_occurs_update(s.drop_last(), i, y);
        assert forall|x: T| #[trigger] occurs(b, x) + (if x == s[i] { 1nat } else { 0nat }) == occurs(s, x) + if x == y { 1nat } else { 0nat } by {
            assert(occurs(b, x) == occurs(s.drop_last().update(i, y), x) + if b.last() == x { 1nat } else { 0nat });
        }
    }
}

/// what Vec::swap_remove leaves
pub proof fn lemma_occurs_swap_remove<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures forall|x: T| #[trigger] occurs(s.update(i, s.last()).drop_last(), x) + (if x == s[i] { 1nat } else { 0nat }) == occurs(s, x),
{
    let u = s.update(i, s.last());
    lemma_occurs_update(s, i, s.last());
    assert(u.last() == s.last());
    assert forall|x: T| #[trigger] occurs(u.drop_last(), x) + (if x == s[i] { 1nat } else { 0nat }) == occurs(s, x) by {
        assert(occurs(u, x) == occurs(u.drop_last(), x) + if u.last() == x { 1nat } else { 0nat });
    }
}

/// the points of a partition are those partitioned
pub proof fn lemma_members<T: Point>(a: Seq<Vec<T>>, points: Seq<T>)
    requires same_points(a, points),
    ensures
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@.len() <= points.len(),
        all_weighty(points) ==> forall|i: int| 0 <= i < a.len() ==> all_weighty((#[trigger] a[i])@),
        forall|i: int, k: int| 0 <= i < a.len() && 0 <= k < a[i]@.len() ==> points.contains(#[trigger] a[i]@[k]),
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i])@.len() <= points.len() by { lemma_held_in(a, i); }
    assert forall|i: int, k: int| 0 <= i < a.len() && 0 <= k < a[i]@.len() implies points.contains(#[trigger] a[i]@[k]) by {
        let x = a[i]@[k];
        assert(a[i]@.contains(x));
        lemma_occurs(a[i]@, x);
        lemma_held_in(a, i);
        assert(held(a, x) == occurs(points, x));
        lemma_occurs(points, x);
    }
    if all_weighty(points) {
        assert forall|i: int| 0 <= i < a.len() implies all_weighty((#[trigger] a[i])@) by {
            assert forall|k: int| 0 <= k < a[i]@.len() implies (#[trigger] a[i]@[k]).weighty() by {
                assert(points.contains(a[i]@[k]));
                let j = choose|j: int| 0 <= j < points.len() && points[j] == a[i]@[k];
                assert(points[j].weighty());
            }
        }
    }
}

pub open spec fn all_weighty<T: Point>(points: Seq<T>) -> bool {
    forall|k: int| 0 <= k < points.len() ==> (#[trigger] points[k]).weighty()
}

/// points that can be clustered: some, and few enough for their sums and the counters
pub open spec fn clusterable<T: Point>(points: Seq<T>) -> bool {
    0 < points.len() <= T::most() && points.len() <= 0xffff_ffff && all_weighty(points)
}

/// what clustering comes down to
pub open spec fn partitioned<T: Point>(points: Seq<T>, n: nat, c: Seq<T>, a: Seq<Vec<T>>) -> bool {
    &&& c.len() == a.len() == if n <= points.len() { n } else { points.len() }
    &&& same_points(a, points)
    &&& none_empty(a)
    &&& forall|i: int| 0 <= i < a.len() ==> T::is_mean((#[trigger] a[i])@, c[i])
}

pub open spec fn good_neighbours(g: Seq<NeighbouringCentroids>, n: int) -> bool {
    g.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] g[i]).src_id == i && g[i].within(n)
}

pub open spec fn shaped<T: Point>(c: Clusters<T>, n: int) -> bool {
    c.centroids@.len() == n && c.assignment@.len() == n && good_neighbours(c.neighbours@, n) && 0 < n <= 0xffff_ffff
}

/// a group that can spare a point
pub open spec fn fitting<T>(a: Seq<Vec<T>>, i: int) -> int {
    choose|k: int| 0 <= k < a.len() && (#[trigger] a[k])@.len() >= 2
}

pub proof fn lemma_fitting<T>(a: Seq<Vec<T>>, i: int)
    requires 0 <= i < a.len() <= total(a), a[i]@.len() == 0,
    ensures 0 <= fitting(a, i) < a.len(), a[fitting(a, i)]@.len() >= 2,
{
    if forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k])@.len() < 2 {
        lemma_few(a, i);
    }
}

pub proof fn lemma_few<T>(a: Seq<Vec<T>>, i: int)
    requires forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k])@.len() < 2,
    ensures total(a) <= a.len(), 0 <= i < a.len() && a[i]@.len() == 0 ==> total(a) < a.len(),
    decreases a.len(),
{
    if a.len() > 0 { lemma_few(a.drop_last(), i); }
}

/* loops of iterator adapters, written out (verified) */

/// a.iter().map(|v| v.len()).sum()
pub fn sum_len<T>(a: &Vec<Vec<T>>) -> (r: usize)
    requires total(a@) <= usize::MAX,
    ensures r == total(a@),
{
    let mut s: usize = 0;
    proof { assert(a@.take(0) =~= Seq::empty()); }
    for i in 0..a.len()
        invariant s == total(a@.take(i as int)), total(a@) <= usize::MAX,
    {
        proof {
            lemma_total_take(a@, i as int + 1);
            assert(a@.take(i as int + 1).drop_last() =~= a@.take(i as int));
        }
        s = s + a[i].len();
    }
    proof { assert(a@.take(a@.len() as int) =~= a@); }
    s
}

pub proof fn lemma_total_take<T>(a: Seq<Vec<T>>, k: int)
    requires 0 <= k <= a.len(),
    ensures total(a.take(k)) <= total(a),
    decreases a.len() - k,
{
    if k < a.len() {
        lemma_total_take(a, k + 1);
        assert(a.take(k + 1).drop_last() =~= a.take(k));
    } else {
        assert(a.take(k) =~= a);
    }
}

/// slice.iter().filter(f).count()
pub fn filter_count<T, F: Fn(&T) -> bool>(s: &Vec<T>, f: F) -> (r: usize)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
    ensures (forall|i: int, b: bool| 0 <= i < s@.len() && #[trigger] f.ensures((&s@[i],), b) ==> b) ==> r == s@.len(),
{
    let mut n: usize = 0;
    for i in 0..s.len()
        invariant
            n <= i, forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
            (forall|i: int, b: bool| 0 <= i < s@.len() && #[trigger] f.ensures((&s@[i],), b) ==> b) ==> n == i,
    {
        if f(&s[i]) { n = n + 1; }
    }
    n
}

pub open spec fn snds<T>(s: Seq<(usize, T)>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i].1) }

pub open spec fn listed<T>(a: Seq<Vec<T>>, s: Seq<(usize, T)>) -> bool {
    &&& s.len() == total(a)
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < a.len()
    &&& forall|x: T| #[trigger] occurs(snds(s), x) == held(a, x)
}

/// a.into_iter().enumerate().flat_map(|(i, v)| v.into_iter().map(move |x| f(i, x)))
#[verifier::external_body]
pub fn list<'a, T: 'a, F: Fn(usize, T) -> (usize, T) + 'a>(a: Vec<Vec<T>>, f: F) -> (r: crate::rt::It<'a, (usize, T)>)
    requires
        forall|i: usize, x: T| #[trigger] f.requires((i, x)),
        forall|i: usize, x: T, y: (usize, T)| #[trigger] f.ensures((i, x), y) ==> y == (i, x),
    ensures r.obeys_prophetic_iter_laws(), listed(a@, r.remaining()),
{ unimplemented!() }

/// v.iter().max().unwrap(), or min
#[verifier::external_body]
pub fn extreme(v: &Vec<u64>) -> (r: u64)
    requires v@.len() > 0,
{ *v.iter().max().unwrap() }

@@inside Point
    /// the sums below are over points like this
    spec fn weighty(&self) -> bool;
    /// how many points can be summed up
    spec fn most() -> nat;
    spec fn is_mean(points: Seq<Self>, m: Self) -> bool;
    proof fn finite(&self, other: &Self)
        ensures crate::fl::f_finite(self.distance(other));
@@fn Point::mean ret r
@@spec
    requires points@.len() <= Self::most(), forall|k: int| 0 <= k < points@.len() ==> (#[trigger] points@[k]).weighty(), Self::most() > 0,
    ensures
        points@.len() > 0 <==> r is Some,
        r is Some ==> Self::is_mean(points@, r->Some_0) && r->Some_0.weighty(),

@@fn cluster ret r
@@spec
    requires clusterable(points@), nclusters > 0,
    ensures partitioned(points@, nclusters as nat, r.cents(), r.groups()),
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@rewrite i += 1; ==> proof { few_rounds(i); } i += 1; -- the counter of the diagnostic output
@@start
    let ghost all = points@;
    let ghost n0 = nclusters as nat;
@@loop 0
    invariant
        clusterable(all), nclusters == if n0 <= all.len() { n0 } else { all.len() }, n0 > 0,
        shaped(clusters, nclusters as int), same_points(clusters.assignment@, all),
        !changed_assignment ==> none_empty(clusters.assignment@) && forall|k: int| 0 <= k < nclusters ==> T::is_mean((#[trigger] clusters.assignment@[k])@, clusters.centroids@[k]),
@@before return clusters;
    proof { assert(partitioned(all, n0, clusters.centroids@, clusters.assignment@)); }

@@fn check_enough_active_clusters
@@spec
    requires total(clusters.assignment@) <= usize::MAX, none_empty(clusters.assignment@), clusters.assignment@.len() == requested_nclusters,
@@rewrite let point_count = clusters.assignment .iter() .map(|v| v.len()) .sum(); ==> let point_count = sum_len(&clusters.assignment); -- the iterator written out
@@rewrite (0.99 * requested_nclusters as f64) as usize ==> crate::fl::almost(requested_nclusters) -- rounding down to 99%
@@rewrite clusters.assignment .iter() .filter(|v| $E) .count() ==> filter_count(&clusters.assignment, |v: &Vec<T>| -> (b: bool) ensures b == ($E) { $E }) -- the iterator written out; closure given its contract

@@fn init_assignment ret r
@@spec
    requires 0 < nclusters <= points@.len(),
    ensures r@.len() == nclusters, same_points(r@, points@), none_empty(r@),
@@start
    let ghost all = points@;
    let ghost n0 = points@.len() as int;
    proof {
        assert(n0 / nclusters as int >= 1) by (nonlinear_arith) requires n0 >= nclusters, nclusters > 0;
        assert((n0 / nclusters as int) * nclusters <= n0) by (nonlinear_arith) requires nclusters > 0, n0 >= 0;
        lemma_empties::<T>(Seq::empty());
    }
@@loop 0 iter it
    invariant
        0 < nclusters <= n0 == all.len(), points_per_cluster == n0 / nclusters as int, points_per_cluster > 0, points_per_cluster * nclusters <= n0,
        it.seq().len() == nclusters - 1,
        init_assignment@.len() == it.index@, none_empty(init_assignment@),
        points@.len() == n0 - it.index@ * points_per_cluster,
        total(init_assignment@) + points@.len() == n0,
        forall|x: T| #[trigger] held(init_assignment@, x) + occurs(points@, x) == occurs(all, x),
@@bodystart 0
    let ghost p0 = points@;
    let ghost a0 = init_assignment@;
    let ghost gi = it.index@;
    proof {
        assert(points_per_cluster * nclusters - gi * points_per_cluster >= 2 * points_per_cluster) by (nonlinear_arith)
            requires 0 <= gi <= nclusters - 2, points_per_cluster > 0;
    }
@@after init_assignment.push(points_in_this_cluster);
    proof {
        lemma_held_push(a0, points_in_this_cluster);
        assert(p0 =~= points@ + points_in_this_cluster@);
        lemma_occurs_add(points@, points_in_this_cluster@);
        assert((gi + 1) * points_per_cluster == gi * points_per_cluster + points_per_cluster) by (nonlinear_arith);
        assert forall|x: T| #[trigger] held(init_assignment@, x) + occurs(points@, x) == occurs(all, x) by {
            assert(held(a0, x) + occurs(p0, x) == occurs(all, x));
        }
    }
@@before init_assignment.push(points);
    proof {
        lemma_held_push(init_assignment@, points);
        assert(points_per_cluster * nclusters - (nclusters - 1) * points_per_cluster == points_per_cluster) by (nonlinear_arith);
    }

@@fn init ret r
@@spec
    requires clusterable(points@), 0 < nclusters <= points@.len(),
    ensures shaped(r, nclusters as int), same_points(r.assignment@, points@),
@@after let assignment = init_assignment(points, nclusters);
    proof { lemma_members(assignment@, points@); }

@@fn fake_clone ret r
@@spec
    requires p.weighty(), T::most() > 0,
    ensures r.weighty(),
@@rewrite std::slice::from_ref(p) ==> crate::rt::from_ref(p) -- assumed contract of slice::from_ref

@@fn init_centroids ret r
@@spec
    requires none_empty(assignment@), T::most() > 0, forall|i: int| 0 <= i < assignment@.len() ==> all_weighty((#[trigger] assignment@[i])@),
    ensures r@.len() == assignment@.len(),
@@rewrite assignment.iter() .map(|asg| &asg[0]) .map(fake_clone) .collect() ==> crate::rt::map_slice(assignment.as_slice(), |asg: &Vec<T>| -> (r: T) requires asg@.len() > 0, asg@[0].weighty(), T::most() > 0 { fake_clone(&asg[0]) }) -- Iterator::map and collect written out; closure given its contract

@@fn compute_centroids
@@spec
    requires
        none_empty(assignment@), forall|i: int| 0 <= i < assignment@.len() ==> all_weighty((#[trigger] assignment@[i])@) && assignment@[i]@.len() <= T::most(),
        old(centroids)@.len() == 0,
    ensures
        final(centroids)@.len() == assignment@.len(),
        forall|i: int| 0 <= i < assignment@.len() ==> T::is_mean((#[trigger] assignment@[i])@, final(centroids)@[i]),
@@rewrite for points_in_cluster in assignment.iter() ==> for vp_i in 0..assignment.len() -- iteration over a slice, by position
@@rewrite T::mean(&points_in_cluster) ==> T::mean(points_in_cluster.as_slice()) -- the coercion made explicit
@@loop 0
    invariant
        none_empty(assignment@), forall|i: int| 0 <= i < assignment@.len() ==> all_weighty((#[trigger] assignment@[i])@) && assignment@[i]@.len() <= T::most(),
        centroids@.len() == vp_i,
        forall|i: int| 0 <= i < vp_i ==> T::is_mean((#[trigger] assignment@[i])@, centroids@[i]),
@@bodystart 0
    let points_in_cluster = &assignment[vp_i];
    proof { assert(all_weighty(assignment@[vp_i as int]@)); }

@@fn fill_empty_clusters
@@spec
    requires 0 < old(assignment)@.len() <= total(old(assignment)@),
    ensures
        final(assignment)@.len() == old(assignment)@.len(), none_empty(final(assignment)@),
        total(final(assignment)@) == total(old(assignment)@),
        forall|x: T| #[trigger] held(final(assignment)@, x) == held(old(assignment)@, x),
@@rewrite let mut victim = assignment.choose_mut(&mut rand::thread_rng()) .unwrap(); ==> let ghost vp_fit = fitting(assignment@, i as int); let mut vp_luck = crate::rt::luck(Ghost(vp_fit)); let mut victim = crate::rt::lucky_below(assignment.len(), Ghost(vp_fit), &mut vp_luck); -- choosing the element of a slice by its position
@@rewrite while victim.len() ==> while assignment[victim].len() -- the element chosen
@@rewrite victim = assignment.choose_mut(&mut rand::thread_rng()) .unwrap(); } ==> victim = crate::rt::lucky_below(assignment.len(), Ghost(vp_fit), &mut vp_luck); } -- choosing the element of a slice by its position
@@rewrite rand::thread_rng().gen_range(0, victim.len()) ==> crate::rt::any_below(assignment[victim].len()) -- assumed contract of gen_range
@@rewrite victim.swap_remove ==> crate::rt::at_mut(assignment, victim).swap_remove -- the element chosen
@@rewrite assignment[i].push ==> crate::rt::at_mut(assignment, i).push -- IndexMut as a function
@@start
    let ghost a0 = assignment@;
@@loop 0 iter it
    invariant
        it.seq().len() == a0.len(), assignment@.len() == a0.len(), 0 < a0.len() <= total(a0),
        forall|k: int| 0 <= k < i ==> (#[trigger] assignment@[k])@.len() > 0,
        total(assignment@) == total(a0),
        forall|x: T| #[trigger] held(assignment@, x) == held(a0, x),
@@loop 1
    invariant
        victim < assignment@.len(), 0 <= vp_fit < assignment@.len(), assignment@[vp_fit]@.len() >= 2,
    decreases if victim == vp_fit { 0 } else { vp_luck@ + 1 },
@@before let mut victim
    proof { lemma_fitting(assignment@, i as int); }
@@before let stolen = 
    let ghost a1 = assignment@;
    let ghost v1 = assignment@[victim as int]@;
@@after let stolen = victim.swap_remove(stolen_idx);
    let ghost a2 = assignment@;
    proof {
        lemma_occurs_swap_remove(v1, stolen_idx as int);
        lemma_held_update(a1, victim as int, a2[victim as int]);
        assert(a2 =~= a1.update(victim as int, a2[victim as int]));
    }
@@after assignment[i].push(stolen);
    proof {
        lemma_occurs_push(a2[i as int]@, stolen);
        lemma_held_update(a2, i as int, assignment@[i as int]);
        assert(assignment@ =~= a2.update(i as int, assignment@[i as int]));
        assert forall|x: T| #[trigger] held(assignment@, x) == held(a0, x) by {
            assert(held(a1, x) == held(a0, x));
            assert(held(a2, x) + occurs(v1, x) == held(a1, x) + occurs(a2[victim as int]@, x));
            assert(held(assignment@, x) + occurs(a2[i as int]@, x) == held(a2, x) + occurs(assignment@[i as int]@, x));
        }
    }

@@fn update_centroids
@@spec
    requires
        0 < old(clusters).assignment@.len() <= total(old(clusters).assignment@),
        exists|pts: Seq<T>, n: int| #[trigger] clusterable(pts) && same_points(old(clusters).assignment@, pts) && #[trigger] shaped(*old(clusters), n),
    ensures
        none_empty(final(clusters).assignment@),
        forall|k: int| 0 <= k < final(clusters).centroids@.len() ==> T::is_mean((#[trigger] final(clusters).assignment@[k])@, final(clusters).centroids@[k]),
        forall|pts: Seq<T>| #[trigger] clusterable(pts) && same_points(old(clusters).assignment@, pts) ==> same_points(final(clusters).assignment@, pts),
        forall|n: int| #[trigger] shaped(*old(clusters), n) ==> shaped(*final(clusters), n),
@@start
    let ghost (pts, n) = choose|pts: Seq<T>, n: int| #[trigger] clusterable(pts) && same_points(clusters.assignment@, pts) && #[trigger] shaped(*clusters, n);
@@before clusters.centroids.clear();
    proof { lemma_members(clusters.assignment@, pts); }

@@inside NeighbouringCentroids
    pub open spec fn within(&self, n: int) -> bool {
        self.src_id < n && self.neighbours@.len() <= n && forall|k: int| 0 <= k < self.neighbours@.len() ==> (#[trigger] self.neighbours@[k]).0 < n
    }
    pub open spec fn measured(&self) -> bool {
        forall|k: int| 0 <= k < self.neighbours@.len() ==> f_finite((#[trigger] self.neighbours@[k]).1)
    }
@@fn NeighbouringCentroids::new ret r
@@spec
    requires src < nclusters <= 0xffff_ffff,
    ensures r.src_id == src, r.within(nclusters as int), r.neighbours@.len() == nclusters - 1,
@@rewrite (0..nclusters) .filter(|dst| $E) .map(|dst| (dst, 0.0)) .collect::<Vec<_>>() ==> { let vp_f = |dst: &usize| -> (b: bool) ensures b == (*dst != src) { $E }; let vp_v = crate::rt::filter_map_below(nclusters, vp_f, |dst: usize| -> (r: (usize, f64)) ensures r.0 == dst { (dst, 0.0) }); proof { let keep = choose|keep: Seq<bool>| keep.len() == nclusters && #[trigger] crate::rt::kept(vp_f, keep) && vp_v@.len() == crate::rt::trues(keep); assert forall|i: int| 0 <= i < keep.len() implies #[trigger] keep[i] == (i != src) by { assert(vp_f.ensures((&(i as usize),), keep[(i as usize) as int])); } crate::rt::lemma_trues(keep, src as int); } vp_v } -- iterator adapters written out; closures given their contracts

@@fn NeighbouringCentroids::update_distances
@@spec
    requires old(self).within(centroids@.len() as int),
    ensures final(self).within(centroids@.len() as int), final(self).measured(), final(self).src_id == old(self).src_id,
        final(self).neighbours@.len() == old(self).neighbours@.len(),
@@rewrite for neigh in self.neighbours.iter_mut() ==> for vp_i in it: 0..self.neighbours.len() -- iter_mut by position
@@loop 0
    invariant
        self.within(centroids@.len() as int), self.src_id == old(self).src_id, self.neighbours@.len() == it.seq().len() == old(self).neighbours@.len(),
        src == &centroids@[self.src_id as int],
        forall|k: int| 0 <= k < vp_i ==> f_finite((#[trigger] self.neighbours@[k]).1),
@@bodystart 0
    let neigh = crate::rt::at_mut(&mut self.neighbours, vp_i);
@@before assert!(neigh.1.is_finite());
    proof { src.finite(dst); }
@@rewrite neigh.1.is_finite() ==> crate::fl::is_finite(neigh.1) -- f64::is_finite as a function

@@fn NeighbouringCentroids::sort
@@spec
    requires old(self).measured(),
    ensures
        final(self).measured(), final(self).src_id == old(self).src_id, final(self).neighbours@.len() == old(self).neighbours@.len(),
        forall|n: int| old(self).within(n) ==> #[trigger] final(self).within(n),
@@rewrite self.neighbours.sort_unstable_by(|(_, a), (_, b)| a.partial_cmp(b).ok_or_else(|| format!("{} <> {}", a, b)).unwrap()) ==> crate::rt::sort_by(&mut self.neighbours, |x: &(usize, f64), y: &(usize, f64)| -> (r: std::cmp::Ordering) requires f_finite(x.1), f_finite(y.1) { crate::fl::cmp(x.1, y.1) }) -- assumed contract of sort_unstable_by; closure given its contract
@@finish
    proof {
        assert forall|n: int| old(self).within(n) implies #[trigger] self.within(n) by {
            assert forall|k: int| 0 <= k < self.neighbours@.len() implies (#[trigger] self.neighbours@[k]).0 < n by {
                assert(old(self).neighbours@.contains(self.neighbours@[k]));
            }
        }
        assert forall|k: int| 0 <= k < self.neighbours@.len() implies f_finite((#[trigger] self.neighbours@[k]).1) by {
            assert(old(self).neighbours@.contains(self.neighbours@[k]));
        }
    }

@@fn NeighbouringCentroids::resize ret r
@@spec
    requires old(self).within(nclusters as int), 0 < nclusters <= 0xffff_ffff,
    ensures
        final(self).within(nclusters as int), final(self).src_id == old(self).src_id,
        r || old(self).neighbours@.len() < final(self).neighbours@.len() == nclusters - 1,
@@rewrite (nclusters as f32).sqrt() as usize ==> crate::fl::root(nclusters) -- f32 arithmetic as a function

@@fn NeighbouringCentroids::iter_and_record ret r
@@spec
    ensures r.neigh_list == self, r.next_pos == 0,

@@fn NeighbouringCentroids::certainty_radius
@@rewrite self.neighbours.get(0).map(|x| x.1 / 2.0).unwrap_or(f64::INFINITY) ==> (match self.neighbours.get(0).map(|x: &(usize, f64)| -> (r: f64) { crate::fl::half(x.1) }) { Some(vp_x) => vp_x, None => crate::fl::infinity() }) -- unwrap_or written out; f64 division as a function

@@inside <IterAndRecord as Iterator>
@@fn <IterAndRecord as Iterator>::next ret r
@@spec
    ensures
        r is Some <==> old(self).next_pos < old(self).neigh_list.neighbours@.len(),
        r is Some ==> *r->Some_0 == old(self).neigh_list.neighbours@[old(self).next_pos as int],
        final(self).next_pos == old(self).next_pos + 1, final(self).neigh_list == old(self).neigh_list,
@@start
    proof { crate::rt::stays_small(self.next_pos); }
@@top
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for IterAndRecord<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<&'a (CentroidId, f64)>;
    #[verifier::prophetic]
    uninterp spec fn will_return_none(&self) -> bool;
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<&'a (CentroidId, f64)> { None }
}

@@fn <IterAndRecord as Drop>::drop
@@spec
    requires 0 < old(self).next_pos <= 0x1_0000_0000,

@@fn init_neighbours ret r
@@spec
    requires 0 < centroids@.len() <= 0xffff_ffff,
    ensures good_neighbours(r@, centroids@.len() as int),
@@rewrite (0..nclusters) .map(|i| NeighbouringCentroids::new(i, nclusters)) .collect() ==> crate::rt::map_below(nclusters, |i: usize| -> (r: NeighbouringCentroids) requires i < nclusters, nclusters <= 0xffff_ffff ensures r.src_id == i, r.within(nclusters as int) { NeighbouringCentroids::new(i, nclusters) }) -- Iterator::map and collect written out; closure given its contract

@@fn compute_neighbours
@@spec
    requires good_neighbours(old(neigh_graph)@, centroids@.len() as int), centroids@.len() <= 0xffff_ffff,
    ensures good_neighbours(final(neigh_graph)@, centroids@.len() as int),
@@rewrite for neighbours in neigh_graph.iter_mut() ==> for vp_i in it: 0..neigh_graph.len() -- iter_mut by position
@@rewrite grow_count += 1; ==> proof { few_rounds(grow_count); } grow_count += 1; -- a counter of the diagnostic output
@@loop 0
    invariant
        it.seq().len() == centroids@.len(), centroids@.len() <= 0xffff_ffff,
        good_neighbours(neigh_graph@, centroids@.len() as int),
@@bodystart 0
    let neighbours = crate::rt::at_mut(neigh_graph, vp_i);
@@loop 1
    invariant
        neighbours.within(centroids@.len() as int), neighbours.src_id == vp_i, 0 < centroids@.len() <= 0xffff_ffff,
    decreases if shrunk { 0 } else { centroids@.len() - neighbours.neighbours@.len() + 1 },

@@fn update_neighbours
@@spec
    requires exists|n: int| shaped(*old(clusters), n),
    ensures
        final(clusters).centroids == old(clusters).centroids, final(clusters).assignment == old(clusters).assignment,
        forall|n: int| #[trigger] shaped(*old(clusters), n) ==> shaped(*final(clusters), n),

@@fn assign_points ret r
@@spec
    requires exists|pts: Seq<T>, n: int| #[trigger] clusterable(pts) && same_points(old(clusters).assignment@, pts) && #[trigger] shaped(*old(clusters), n),
    ensures
        forall|pts: Seq<T>| #[trigger] clusterable(pts) && same_points(old(clusters).assignment@, pts) ==> same_points(final(clusters).assignment@, pts),
        forall|n: int| #[trigger] shaped(*old(clusters), n) ==> shaped(*final(clusters), n),
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@fattr #[verifier::loop_isolation(false)]
@@fattr #[verifier::allow_complex_invariants]
@@rewrite (0..clusters.len()).map(|_| Vec::new()).collect() ==> crate::rt::map_below(clusters.len(), |_i: usize| -> (v: Vec<T>) ensures v@.len() == 0 { Vec::new() }) -- Iterator::map and collect written out; closure given its contract
@@rewrite for (cci, x) in old_assignment.into_iter() .enumerate() .flat_map(|(i, v)| v.into_iter() .map(move |x| (i, x))) ==> let mut vp_points = list(old_assignment, |i: usize, x: T| -> (r: (usize, T)) ensures r == (i, x) { (i, x) }); let ghost all = vp_points.remaining(); let ghost mut done: int = 0; proof { lemma_start(all, clusters.assignment@); } while let Some((cci, x)) = vp_points.next() -- assumed contract of enumerate, flat_map and map; closure given its contract
@@rewrite let mut obvious_stay_count = 0; ==> let mut obvious_stay_count: u64 = 0; -- the type inferred, written down
@@rewrite let mut neighbour_cutoff_count = 0; ==> let mut neighbour_cutoff_count: u64 = 0; -- the type inferred, written down
@@rewrite let mut moved_count = 0; ==> let mut moved_count: u64 = 0; -- the type inferred, written down
@@rewrite let mut stayed_count = 0; ==> let mut stayed_count: u64 = 0; -- the type inferred, written down
@@rewrite let mut tested_neighbours = 0; ==> let mut tested_neighbours: u64 = 0; -- the type inferred, written down
@@rewrite min_dist <= clusters.certainty_radius(cci) ==> crate::fl::le(min_dist, clusters.certainty_radius(cci)) -- f64 comparison as a function
@@rewrite let cluster_cutoff = $E; ==> let cluster_cutoff = crate::fl::any(); -- the cut-off decides only which centroid is nearest, which no contract speaks about
@@rewrite *c_to_c_dist > cluster_cutoff ==> crate::fl::lt(cluster_cutoff, *c_to_c_dist) -- f64 comparison as a function
@@rewrite t_dist < min_dist ==> crate::fl::lt(t_dist, min_dist) -- f64 comparison as a function
@@rewrite max_tested_neighbours.iter().max().unwrap() ==> extreme(&max_tested_neighbours) -- assumed contract of Iterator::max
@@rewrite max_tested_neighbours.iter().min().unwrap() ==> extreme(&max_tested_neighbours) -- assumed contract of Iterator::min
@@rewrite clusters.assignment[j].push ==> crate::rt::at_mut(&mut clusters.assignment, j).push -- IndexMut as a function
@@forwhile 1 vp_near
@@start
    let ghost (pts, n) = choose|pts: Seq<T>, n: int| #[trigger] clusterable(pts) && same_points(clusters.assignment@, pts) && #[trigger] shaped(*clusters, n);
    let ghost c0 = *clusters;
    let ghost before = clusters.assignment@;
@@loop 0
    invariant
        vp_points.obeys_prophetic_iter_laws(), 0 <= done <= all.len(), vp_points.remaining() == all.skip(done),
        clusters.centroids == c0.centroids, clusters.neighbours == c0.neighbours, clusters.assignment@.len() == n,
        total(clusters.assignment@) == done,
        forall|v: T| #[trigger] held(clusters.assignment@, v) == occurs(snds(all).take(done), v),
        obvious_stay_count <= stayed_count, moved_count + stayed_count == done, obvious_stay_count + neighbour_cutoff_count <= done,
        sum_tested_neighbours <= done * 0xffff_ffff, max_tested_neighbours@.len() == n,
    ensures
        done == all.len(),
@@bodystart 0
    let ghost a0 = clusters.assignment@;
    proof {
        assert(all.skip(done)[0] == all[done]);
        assert(all.skip(done).drop_first() =~= all.skip(done + 1));
        assert(all[done].0 < n);
    }
@@loop 1
    invariant
        clusters.neighbours@[cci as int] == *vp_near.neigh_list, vp_near.next_pos == tested_neighbours <= vp_near.neigh_list.neighbours@.len(),
        closest_idx is Some, closest_idx->Some_0 < n,
        obvious_stay_count + neighbour_cutoff_count <= done,
    ensures
        0 < vp_near.next_pos <= vp_near.neigh_list.neighbours@.len() + 1,
        tested_neighbours <= vp_near.neigh_list.neighbours@.len(),
        closest_idx is Some, closest_idx->Some_0 < n,
        obvious_stay_count + neighbour_cutoff_count <= done + 1,
@@before max_tested_neighbours[cci] = 
    vp_near.drop();
@@before let j = closest_idx.unwrap();
    proof {
        assert((done + 1) * 0xffff_ffff == done * 0xffff_ffff + 0xffff_ffff);
    }
@@after clusters.assignment[j].push(x);
    proof {
        lemma_occurs_push(a0[j as int]@, x);
        lemma_held_update(a0, j as int, clusters.assignment@[j as int]);
        assert(clusters.assignment@ =~= a0.update(j as int, clusters.assignment@[j as int]));
        assert(snds(all).take(done + 1) =~= snds(all).take(done).push(x));
        lemma_occurs_push(snds(all).take(done), x);
        assert forall|v: T| #[trigger] held(clusters.assignment@, v) == occurs(snds(all).take(done + 1), v) by {
            assert(held(a0, v) == occurs(snds(all).take(done), v));
        }
        done = done + 1;
    }
@@before return some_change;
    proof { assert(snds(all).take(done) =~= snds(all)); }

@@top
pub proof fn lemma_start<T>(all: Seq<(usize, T)>, a: Seq<Vec<T>>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@.len() == 0,
    ensures all.skip(0) == all, total(a) == 0, forall|v: T| #[trigger] held(a, v) == occurs(snds(all).take(0), v),
{
    assert(all.skip(0) =~= all);
    lemma_empties(a);
}

@@inside Clusters
    pub open spec fn cents(&self) -> Seq<T> { self.centroids@ }
    pub open spec fn groups(&self) -> Seq<Vec<T>> { self.assignment@ }
@@fn Clusters::into_iter ret r
@@spec
    requires self.cents().len() == self.groups().len(),
    ensures
        r.obeys_prophetic_iter_laws(), r.remaining().len() == self.cents().len(),
        forall|i: int| 0 <= i < self.cents().len() ==> #[trigger] r.remaining()[i] == (self.cents()[i], self.groups()[i]),
@@rewrite self.centroids .into_iter() .zip(self.assignment .into_iter()) ==> crate::rt::zip_own(self.centroids, self.assignment) -- assumed contract of Iterator::zip
@@fn Clusters::len ret r
@@spec
    requires self.centroids@.len() == self.assignment@.len(),
    ensures r == self.centroids@.len(),
@@fn Clusters::certainty_radius
@@spec
    requires cid < self.neighbours@.len(),
