// Huffman's theorem over weights and code lengths: pure mathematics, all proved
use vstd::prelude::*;

verus! {

pub open spec fn sum(s: Seq<nat>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() }
}

pub proof fn lemma_sum_push(s: Seq<nat>, x: nat)
    ensures sum(s.push(x)) == sum(s) + x,
{
    assert(s.push(x).drop_last() =~= s);
}

pub proof fn lemma_sum_add(s: Seq<nat>, t: Seq<nat>)
    ensures sum(s + t) == sum(s) + sum(t),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); }
    else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_sum_add(s, t.drop_last());
    }
}

pub proof fn lemma_sum_remove(s: Seq<nat>, i: int)
    requires 0 <= i < s.len(),
    ensures sum(s) == sum(s.remove(i)) + s[i],
    decreases s.len(),
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else {
        lemma_sum_remove(s.drop_last(), i);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}

pub proof fn lemma_sum_update(s: Seq<nat>, i: int, x: nat)
    requires 0 <= i < s.len(),
    ensures sum(s.update(i, x)) + s[i] == sum(s) + x,
{
    lemma_sum_remove(s, i);
    lemma_sum_remove(s.update(i, x), i);
    assert(s.update(i, x).remove(i) =~= s.remove(i));
}

pub proof fn lemma_sum_scale(s: Seq<nat>, t: Seq<nat>, k: nat)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == k * s[i],
    ensures sum(t) == k * sum(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] t.drop_last()[i] == k * s.drop_last()[i] by { assert(t[i] == k * s[i]); }
        lemma_sum_scale(s.drop_last(), t.drop_last(), k);
        assert(t.last() == k * s.last()) by { assert(t[s.len() - 1] == k * s[s.len() - 1]); }
        assert(k * (sum(s.drop_last()) + s.last()) == k * sum(s.drop_last()) + k * s.last()) by (nonlinear_arith);
    } else {
        assert(k * 0 == 0) by (nonlinear_arith);
    }
}

pub proof fn lemma_sum_le(s: Seq<nat>, t: Seq<nat>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= t[i],
    ensures sum(s) <= sum(t),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] <= t.drop_last()[i] by { assert(s[i] <= t[i]); }
        lemma_sum_le(s.drop_last(), t.drop_last());
        assert(s[s.len() - 1] <= t[s.len() - 1]);
    }
}

pub proof fn lemma_sum_zip(s: Seq<nat>, t: Seq<nat>, u: Seq<nat>)
    requires s.len() == t.len(), s.len() == u.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] u[i] == s[i] + t[i],
    ensures sum(u) == sum(s) + sum(t),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] u.drop_last()[i] == s.drop_last()[i] + t.drop_last()[i] by { assert(u[i] == s[i] + t[i]); }
        lemma_sum_zip(s.drop_last(), t.drop_last(), u.drop_last());
        assert(u[s.len() - 1] == s[s.len() - 1] + t[s.len() - 1]);
    }
}

pub proof fn lemma_sum_zero(s: Seq<nat>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0,
    ensures sum(s) == 0,
    decreases s.len(),
{
    if s.len() > 0 { lemma_sum_zero(s.drop_last()); }
}

pub open spec fn pow2(n: nat) -> nat
    decreases n,
{
    if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) }
}

pub proof fn lemma_pow2_pos(n: nat)
    ensures pow2(n) >= 1,
    decreases n,
{
    if n > 0 { lemma_pow2_pos((n - 1) as nat); }
}

pub proof fn lemma_pow2_add(a: nat, b: nat)
    ensures pow2(a + b) == pow2(a) * pow2(b),
    decreases a,
{
    if a > 0 {
        lemma_pow2_add((a - 1) as nat, b);
        assert(((a - 1) as nat) + b == (a + b - 1) as nat);
        assert(2 * (pow2((a - 1) as nat) * pow2(b)) == (2 * pow2((a - 1) as nat)) * pow2(b)) by (nonlinear_arith);
    } else {
        assert(1 * pow2(b) == pow2(b)) by (nonlinear_arith);
    }
}

/* Kraft sums, scaled by 2^m */

pub open spec fn shares(ls: Seq<nat>, m: nat) -> Seq<nat> {
    Seq::new(ls.len(), |i: int| pow2((m - ls[i]) as nat))
}

pub open spec fn kraft_ok(ls: Seq<nat>, m: nat) -> bool {
    &&& forall|i: int| 0 <= i < ls.len() ==> #[trigger] ls[i] <= m
    &&& sum(shares(ls, m)) <= pow2(m)
}

pub open spec fn products(ws: Seq<nat>, ls: Seq<nat>) -> Seq<nat> {
    Seq::new(ws.len(), |i: int| ws[i] * ls[i])
}

pub open spec fn dot(ws: Seq<nat>, ls: Seq<nat>) -> nat { sum(products(ws, ls)) }

/// no lengths that Kraft's inequality allows cost less than c
pub open spec fn lower_bound(ws: Seq<nat>, c: nat) -> bool {
    forall|ls: Seq<nat>, m: nat| ls.len() == ws.len() && #[trigger] kraft_ok(ls, m) ==> dot(ws, ls) >= c
}

/// the scale does not matter
pub proof fn lemma_rescale(ls: Seq<nat>, m: nat, k: nat)
    requires kraft_ok(ls, m), forall|i: int| 0 <= i < ls.len() ==> #[trigger] ls[i] <= k, k <= m,
    ensures kraft_ok(ls, k),
{
    let d = (m - k) as nat;
    let (s, t) = (shares(ls, k), shares(ls, m));
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] t[i] == pow2(d) * s[i] by {
        assert(ls[i] <= k);
        lemma_pow2_add(d, (k - ls[i]) as nat);
        assert(d + (k - ls[i]) as nat == (m - ls[i]) as nat);
    }
    lemma_sum_scale(s, t, pow2(d));
    lemma_pow2_add(d, k);
    assert(d + k == m);
    lemma_pow2_pos(d);
    assert(sum(s) <= pow2(k)) by (nonlinear_arith)
        requires pow2(d) * sum(s) <= pow2(d) * pow2(k), pow2(d) >= 1;
}

/// the longest length
pub proof fn lemma_longest(ls: Seq<nat>) -> (k: int)
    requires ls.len() > 0,
    ensures 0 <= k < ls.len(), forall|i: int| 0 <= i < ls.len() ==> #[trigger] ls[i] <= ls[k],
    decreases ls.len(),
{
    if ls.len() == 1 { 0 } else {
        let j = lemma_longest(ls.drop_last());
        let n = ls.len() - 1;
        assert forall|i: int| 0 <= i < n implies #[trigger] ls[i] <= ls[j] by { assert(ls.drop_last()[i] <= ls.drop_last()[j]); }
        if ls[n] > ls[j] { n } else { j }
    }
}

/// a sum of even numbers
pub proof fn lemma_even(s: Seq<nat>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] % 2 == 0,
    ensures sum(s) % 2 == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] % 2 == 0 by { assert(s[i] % 2 == 0); }
        lemma_even(s.drop_last());
        assert(s[s.len() - 1] % 2 == 0);
    }
}

/// a single longest word can be shortened
pub proof fn lemma_shorten(ls: Seq<nat>, k: int)
    requires
        0 <= k < ls.len(), kraft_ok(ls, ls[k]), ls[k] > 0,
        forall|i: int| 0 <= i < ls.len() && i != k ==> #[trigger] ls[i] < ls[k],
    ensures kraft_ok(ls.update(k, (ls[k] - 1) as nat), ls[k]),
{
    let m = ls[k];
    let ls2 = ls.update(k, (m - 1) as nat);
    let (s, t) = (shares(ls, m), shares(ls2, m));
    assert(pow2(0) == 1 && pow2(1) == 2) by { reveal_with_fuel(pow2, 2); }
    assert(t =~= s.update(k, 2));
    lemma_sum_update(s, k, 2);
    assert(s[k] == 1);
    let z = s.update(k, 0);
    lemma_sum_update(s, k, 0);
    assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] % 2 == 0 by {
        if i != k { assert(ls[i] < m); }
    }
    lemma_even(z);
    assert(pow2(m) % 2 == 0);
    assert forall|i: int| 0 <= i < ls2.len() implies #[trigger] ls2[i] <= m by { }
}

pub proof fn lemma_products_update(ws: Seq<nat>, ls: Seq<nat>, k: int, l: nat)
    requires 0 <= k < ls.len(), ls.len() == ws.len(),
    ensures dot(ws, ls.update(k, l)) + ws[k] * ls[k] == dot(ws, ls) + ws[k] * l,
{
    assert(products(ws, ls.update(k, l)) =~= products(ws, ls).update(k, ws[k] * l));
    lemma_sum_update(products(ws, ls), k, ws[k] * l);
}

/// exchanging the lengths of a light, short word and a heavy, long one
pub proof fn lemma_swap(ws: Seq<nat>, ls: Seq<nat>, m: nat, i: int, k: int) -> (r: Seq<nat>)
    requires
        0 <= k < ls.len(), 0 <= i < ls.len(), ls.len() == ws.len(), kraft_ok(ls, m), ws[i] <= ws[k], ls[i] <= ls[k],
    ensures
        r == ls.update(i, ls[k]).update(k, ls[i]), kraft_ok(r, m), dot(ws, r) <= dot(ws, ls),
{
    let a = ls.update(i, ls[k]);
    let r = a.update(k, ls[i]);
    let s = shares(ls, m);
    assert(shares(r, m) =~= s.update(i, s[k]).update(k, s[i]));
    lemma_sum_update(s, i, s[k]);
    lemma_sum_update(s.update(i, s[k]), k, s[i]);
    lemma_products_update(ws, ls, i, ls[k]);
    lemma_products_update(ws, a, k, ls[i]);
    if i != k {
        assert(ws[i] * ls[k] + ws[k] * ls[i] <= ws[i] * ls[i] + ws[k] * ls[k]) by (nonlinear_arith)
            requires ws[i] <= ws[k], ls[i] <= ls[k];
    } else {
        assert(r =~= ls);
    }
    assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] <= m by { assert(ls[i] <= m && ls[k] <= m && ls[j] <= m); }
    r
}

/// what the two lightest words were merged into
pub open spec fn merged(ws: Seq<nat>, i: int, j: int, x: nat) -> Seq<nat> {
    ws.remove(i).remove(j).push(x)
}

/// in ws, the positions that `remove(i).remove(j)` takes out
pub open spec fn second(i: int, j: int) -> int { if j < i { j } else { j + 1 } }

/// two longest words that carry the two lightest weights, merged
pub proof fn lemma_merge(ws: Seq<nat>, i: int, j: int, c: nat, l2: Seq<nat>, top: nat)
    requires
        0 <= i < ws.len(), 0 <= j < ws.len() - 1,
        lower_bound(merged(ws, i, j, ws[i] + ws[second(i, j)]), c),
        l2.len() == ws.len(), kraft_ok(l2, top), top > 0, l2[i] == top, l2[second(i, j)] == top,
    ensures dot(ws, l2) >= c + ws[i] + ws[second(i, j)],
{
    let j2 = second(i, j);
    // merge them
    let w3 = merged(ws, i, j, ws[i] + ws[j2]);
    let l3 = merged(l2, i, j, (top - 1) as nat);
    let s = shares(l2, top);
    assert(pow2(0) == 1 && pow2(1) == 2) by { reveal_with_fuel(pow2, 2); }
    assert(shares(l3, top) =~= merged(s, i, j, 2));
    lemma_sum_remove(s, i);
    lemma_sum_remove(s.remove(i), j);
    assert(s.remove(i)[j] == s[j2]);
    lemma_sum_push(s.remove(i).remove(j), 2);
    assert forall|p: int| 0 <= p < l3.len() implies #[trigger] l3[p] <= top by {
        if p < l3.len() - 1 {
            let p1 = if p < j { p } else { p + 1 };
            let p2 = if p1 < i { p1 } else { p1 + 1 };
            assert(l3[p] == l2[p2]);
        }
    }
    assert(kraft_ok(l3, top));
    assert(dot(w3, l3) >= c);
    let d = products(ws, l2);
    let x = (ws[i] + ws[j2]) * ((top - 1) as nat);
    assert(products(w3, l3) =~= merged(d, i, j, x));
    lemma_sum_remove(d, i);
    lemma_sum_remove(d.remove(i), j);
    assert(d.remove(i)[j] == d[j2]);
    lemma_sum_push(d.remove(i).remove(j), x);
    assert(x + ws[i] + ws[j2] == ws[i] * top + ws[j2] * top) by (nonlinear_arith)
        requires top > 0, x == (ws[i] + ws[j2]) * ((top - 1) as nat);
}

/// Huffman's step, for one choice of lengths
pub proof fn lemma_step(ws: Seq<nat>, i: int, j: int, c: nat, ls: Seq<nat>, m: nat)
    requires
        0 <= i < ws.len(), 0 <= j < ws.len() - 1,
        forall|k: int| 0 <= k < ws.len() ==> ws[i] <= #[trigger] ws[k],
        forall|k: int| 0 <= k < ws.len() && k != i ==> ws[second(i, j)] <= #[trigger] ws[k],
        lower_bound(merged(ws, i, j, ws[i] + ws[second(i, j)]), c),
        ls.len() == ws.len(), kraft_ok(ls, m),
    ensures dot(ws, ls) >= c + ws[i] + ws[second(i, j)],
    decreases sum(ls),
{
    let j2 = second(i, j);
    let k = lemma_longest(ls);
    let top = ls[k];
    lemma_rescale(ls, m, top);
    if top == 0 {
        // more than one word cannot all be empty
        let s = shares(ls, 0);
        assert(pow2(0) == 1);
        assert(s[0] == 1 && s[1] == 1);
        lemma_sum_remove(s, 0);
        lemma_sum_remove(s.remove(0), 0);
        assert(s.remove(0)[0] == s[1]);
        assert(false);
    }
    if forall|q: int| 0 <= q < ls.len() && q != k ==> #[trigger] ls[q] < top {
        lemma_shorten(ls, k);
        let ls2 = ls.update(k, (top - 1) as nat);
        lemma_sum_update(ls, k, (top - 1) as nat);
        lemma_products_update(ws, ls, k, (top - 1) as nat);
        assert(ws[k] * (top - 1) as nat <= ws[k] * top) by (nonlinear_arith) requires top > 0;
        lemma_step(ws, i, j, c, ls2, top);
    } else {
        let q = choose|q: int| 0 <= q < ls.len() && q != k && !(#[trigger] ls[q] < top);
        assert(ls[q] == top);
        // give the lightest the longest word
        assert(ls[i] <= top);
        let k1 = if q == i { q } else { k };
        let l1 = lemma_swap(ws, ls, top, i, k1);
        assert(l1[i] == top);
        // there is another longest one
        let k2 = if k1 == k { q } else { k };
        assert(l1[k2] == top && k2 != i);
        assert(l1[j2] <= top);
        let l2 = lemma_swap(ws, l1, top, j2, k2);
        assert(l2[j2] == top);
        assert(l2[i] == top);
        lemma_merge(ws, i, j, c, l2, top);
    }
}

pub proof fn lemma_huffman_step(ws: Seq<nat>, i: int, j: int, c: nat)
    requires
        0 <= i < ws.len(), 0 <= j < ws.len() - 1,
        forall|k: int| 0 <= k < ws.len() ==> ws[i] <= #[trigger] ws[k],
        forall|k: int| 0 <= k < ws.len() && k != i ==> ws[second(i, j)] <= #[trigger] ws[k],
        lower_bound(merged(ws, i, j, ws[i] + ws[second(i, j)]), c),
    ensures lower_bound(ws, c + ws[i] + ws[second(i, j)]),
{
    assert forall|ls: Seq<nat>, m: nat| ls.len() == ws.len() && #[trigger] kraft_ok(ls, m) implies dot(ws, ls) >= c + ws[i] + ws[second(i, j)] by {
        lemma_step(ws, i, j, c, ls, m);
    }
}

/* Kraft's inequality for prefix-free codes */

pub open spec fn starts<A>(w: Seq<A>, p: Seq<A>) -> bool {
    p.len() <= w.len() && w.take(p.len() as int) == p
}

pub open spec fn prefix_free<A>(cs: Seq<Seq<A>>) -> bool {
    forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j ==> !starts(#[trigger] cs[i], #[trigger] cs[j])
}

/// the alphabet has only these two letters
pub open spec fn binary<A>(zero: A, one: A) -> bool {
    zero != one && forall|s: Seq<A>, i: int| 0 <= i < s.len() ==> #[trigger] s[i] == zero || s[i] == one
}

pub open spec fn lengths<A>(cs: Seq<Seq<A>>) -> Seq<nat> {
    Seq::new(cs.len(), |i: int| cs[i].len())
}

/// the shares of the words that start with p
pub open spec fn shares_under<A>(cs: Seq<Seq<A>>, m: nat, p: Seq<A>) -> Seq<nat> {
    Seq::new(cs.len(), |i: int| if starts(cs[i], p) { pow2((m - cs[i].len()) as nat) } else { 0 })
}

pub proof fn lemma_only_one(s: Seq<nat>, k: int)
    requires 0 <= k < s.len(), forall|i: int| 0 <= i < s.len() && i != k ==> #[trigger] s[i] == 0,
    ensures sum(s) == s[k],
{
    lemma_sum_update(s, k, 0);
    lemma_sum_zero(s.update(k, 0));
}

pub proof fn lemma_kraft_under<A>(cs: Seq<Seq<A>>, m: nat, p: Seq<A>, zero: A, one: A)
    requires
        prefix_free(cs), binary(zero, one), p.len() <= m,
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).len() <= m,
    ensures sum(shares_under(cs, m, p)) <= pow2((m - p.len()) as nat),
    decreases m - p.len(),
{
    let s = shares_under(cs, m, p);
    if exists|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == p {
        let k = choose|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == p;
        assert(p.take(p.len() as int) =~= p);
        assert forall|i: int| 0 <= i < s.len() && i != k implies #[trigger] s[i] == 0 by {
            assert(!starts(cs[i], cs[k]));
        }
        lemma_only_one(s, k);
    } else if p.len() == m {
        assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by {
            assert(cs[i].len() <= m);
            if starts(cs[i], p) { assert(cs[i].take(p.len() as int) =~= cs[i]); }
        }
        lemma_sum_zero(s);
    } else {
        let (p0, p1) = (p.push(zero), p.push(one));
        lemma_kraft_under(cs, m, p0, zero, one);
        lemma_kraft_under(cs, m, p1, zero, one);
        let (s0, s1) = (shares_under(cs, m, p0), shares_under(cs, m, p1));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == s0[i] + s1[i] by {
            let c = cs[i];
            let n = p.len() as int;
            assert(c != p);
            if c.len() > n {
                assert(c.take(n + 1) =~= c.take(n).push(c[n]));
                assert(p0.drop_last() =~= p && p1.drop_last() =~= p && p0.last() == zero && p1.last() == one);
                assert(c.take(n).push(c[n]).drop_last() =~= c.take(n));
                assert(c.take(n).push(c[n]).last() == c[n]);
            } else if c.len() == n {
                assert(c.take(n) =~= c);
            }
        }
        lemma_sum_zip(s0, s1, s);
    }
}

pub proof fn lemma_kraft<A>(cs: Seq<Seq<A>>, m: nat, zero: A, one: A)
    requires
        prefix_free(cs), binary(zero, one),
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).len() <= m,
    ensures kraft_ok(lengths(cs), m),
{
    lemma_kraft_under(cs, m, Seq::empty(), zero, one);
    assert forall|i: int| 0 <= i < cs.len() implies starts(#[trigger] cs[i], Seq::<A>::empty()) by {
        assert(cs[i].take(0) =~= Seq::<A>::empty());
    }
    assert(shares_under(cs, m, Seq::empty()) =~= shares(lengths(cs), m));
}

/// a bound for all lengths is one for all prefix-free codes
pub proof fn lemma_codes_bound<A>(ws: Seq<nat>, c: nat, cs: Seq<Seq<A>>, zero: A, one: A)
    requires lower_bound(ws, c), cs.len() == ws.len(), prefix_free(cs), binary(zero, one),
    ensures dot(ws, lengths(cs)) >= c,
{
    let ls = lengths(cs);
    if cs.len() == 0 {
        assert(kraft_ok(ls, 0)) by { reveal_with_fuel(pow2, 1); }
    } else {
        let k = lemma_longest(ls);
        assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]).len() <= ls[k] by { assert(ls[i] <= ls[k]); }
        lemma_kraft(cs, ls[k], zero, one);
    }
}

} // verus!
