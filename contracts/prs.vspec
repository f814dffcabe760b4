@@module prs src/prs.rs

@@grewrite use regex::Regex; ==> use crate::text::Regex; -- stand-in for the regex crate

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::text::{offset, at, boundary, lemma_offset, width};

pub open spec fn special(c: char) -> bool { c == '(' || c == ')' || c == ',' }

/// the text between the parentheses of a call, cut at the commas outside nested parentheses:
/// the pieces that are complete, the one that is not, and how many parentheses are open
pub open spec fn split(b: Seq<char>) -> (Seq<Seq<char>>, Seq<char>, int)
    decreases b.len(),
{
    if b.len() == 0 { (Seq::empty(), Seq::empty(), 0) } else {
        let (done, cur, depth) = split(b.drop_last());
        let c = b.last();
        if c == ',' && depth == 0 { (done.push(cur), Seq::empty(), depth) }
        else { (done, cur.push(c), depth + if c == '(' { 1int } else if c == ')' { -1int } else { 0int }) }
    }
}

pub open spec fn pieces(b: Seq<char>) -> Seq<Seq<char>> {
    if b.len() == 0 { Seq::empty() } else { split(b).0.push(split(b).1) }
}

pub open spec fn never_below(b: Seq<char>) -> bool {
    forall|i: int| 0 <= i <= b.len() ==> split(#[trigger] b.take(i)).2 >= 0
}

/// every parenthesis is closed by a later one
pub open spec fn balanced(b: Seq<char>) -> bool { never_below(b) && split(b).2 == 0 }

pub open spec fn is_name(n: Seq<char>) -> bool { n.len() > 0 && forall|i: int| 0 <= i < n.len() ==> !special(#[trigger] n[i]) }

pub open spec fn full(args: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < args.len() ==> (#[trigger] args[i]).len() > 0 }

pub open spec fn written(name: Seq<char>, body: Seq<char>) -> Seq<char> { name + seq!['('] + body + seq![')'] }

pub open spec fn call_with(s: Seq<char>, name: Seq<char>, args: Seq<Seq<char>>, body: Seq<char>) -> bool {
    &&& is_name(name)
    &&& s == written(name, body)
    &&& balanced(body)
    &&& args == pieces(body)
    &&& full(args)
}

/// s is the call of name with the arguments args
pub open spec fn is_call(s: Seq<char>, name: Seq<char>, args: Seq<Seq<char>>) -> bool {
    exists|body: Seq<char>| call_with(s, name, args, body)
}

pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }

/* a string is a call in at most one way */

pub proof fn lemma_name(s: Seq<char>, n: Seq<char>, b: Seq<char>, m: Seq<char>, c: Seq<char>)
    requires is_name(n), is_name(m), s == written(n, b), s == written(m, c),
    ensures n == m, b == c,
{
    if n.len() < m.len() { assert(s[n.len() as int] == '('); assert(m[n.len() as int] == '('); }
    if m.len() < n.len() { assert(s[m.len() as int] == '('); assert(n[m.len() as int] == '('); }
    assert(n =~= s.take(n.len() as int));
    assert(m =~= s.take(m.len() as int));
    assert(b =~= s.subrange(n.len() as int + 1, s.len() - 1));
    assert(c =~= s.subrange(n.len() as int + 1, s.len() - 1));
}

pub proof fn theorem_unambiguous(s: Seq<char>, n: Seq<char>, a: Seq<Seq<char>>, m: Seq<char>, b: Seq<Seq<char>>)
    requires is_call(s, n, a), is_call(s, m, b),
    ensures n == m, a == b,
{
    let x = choose|x: Seq<char>| call_with(s, n, a, x);
    let y = choose|y: Seq<char>| call_with(s, m, b, y);
    lemma_name(s, n, x, m, y);
}

pub proof fn lemma_once(s: Seq<char>)
    ensures forall|n: Seq<char>, a: Seq<Seq<char>>, m: Seq<char>, b: Seq<Seq<char>>| #[trigger] is_call(s, n, a) && #[trigger] is_call(s, m, b) ==> n == m && a == b,
{
    assert forall|n: Seq<char>, a: Seq<Seq<char>>, m: Seq<char>, b: Seq<Seq<char>>| #[trigger] is_call(s, n, a) && #[trigger] is_call(s, m, b) implies n == m && a == b by {
        theorem_unambiguous(s, n, a, m, b);
    }
}

pub open spec fn one(w: Seq<char>) -> Seq<Seq<char>> { seq![w] }

pub proof fn lemma_views()
    ensures
        forall|v: Seq<&str>, w: Seq<char>| (#[trigger] views(v) == #[trigger] one(w)) <==> (v.len() == 1 && v[0]@ == w),
        forall|v: Seq<&str>| v.len() == 1 ==> #[trigger] views(v) == one(v[0]@),
{
    assert forall|v: Seq<&str>| v.len() == 1 implies #[trigger] views(v) == one(v[0]@) by { assert(views(v) =~= one(v[0]@)); }
    assert forall|v: Seq<&str>, w: Seq<char>| (#[trigger] views(v) == #[trigger] one(w)) <==> (v.len() == 1 && v[0]@ == w) by {
        assert(one(w).len() == 1 && one(w)[0] == w);
        assert(views(v).len() == v.len());
        if v.len() == 1 && v[0]@ == w { assert(views(v) =~= one(w)); }
        if views(v) == one(w) { assert(views(v)[0] == v[0]@); }
    }
}

/* the pieces put together again with commas are the text, and none has a comma outside parentheses */

pub open spec fn joined(p: Seq<Seq<char>>) -> Seq<char>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { joined(p.drop_last()) + seq![','] + p.last() }
}

/// no comma of p lies outside parentheses of p
pub open spec fn whole(p: Seq<char>) -> bool {
    forall|i: int| 0 <= i < p.len() && p[i] == ',' ==> split(#[trigger] p.take(i)).2 > 0
}

pub open spec fn opened(c: char) -> int { if c == '(' { 1int } else if c == ')' { -1int } else { 0int } }

pub open spec fn level(b: Seq<char>) -> int
    decreases b.len(),
{
    if b.len() == 0 { 0 } else { level(b.drop_last()) + opened(b.last()) }
}

pub proof fn lemma_level(b: Seq<char>)
    ensures split(b).2 == level(b),
    decreases b.len(),
{
    if b.len() > 0 { lemma_level(b.drop_last()); }
}

pub proof fn lemma_level_add(a: Seq<char>, b: Seq<char>)
    ensures level(a + b) == level(a) + level(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_level_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}

pub proof fn theorem_pieces(b: Seq<char>)
    requires balanced(b), b.len() > 0,
    ensures
        joined(pieces(b)) == b,
        forall|i: int| 0 <= i < pieces(b).len() ==> closed(#[trigger] pieces(b)[i]),
{
    lemma_pieces(b);
    lemma_joined(b);
    assert(closed(split(b).1));
}

pub proof fn lemma_joined(b: Seq<char>)
    ensures joined(split(b).0.push(split(b).1)) == b,
    decreases b.len(),
{
    hide(opened);
    let (done, cur, depth) = split(b);
    assert(done.push(cur).drop_last() =~= done);
    assert(done.push(cur).last() == cur);
    if b.len() == 0 {
        assert(done.push(cur).len() == 1);
        assert(cur =~= b);
    } else {
        let a = b.drop_last();
        let c = b.last();
        lemma_joined(a);
        let (d0, c0, n0) = split(a);
        assert(b =~= a.push(c));
        assert(d0.push(c0).drop_last() =~= d0);
        assert(d0.push(c0).last() == c0);
        if c == ',' && n0 == 0 {
            assert(done == d0.push(c0));
            assert(joined(done.push(cur)) == joined(done) + seq![','] + cur);
            assert(cur =~= Seq::<char>::empty());
            assert(joined(done.push(cur)) =~= b);
        } else {
            assert(cur == c0.push(c));
            assert(done == d0);
            if d0.len() == 0 {
                assert(d0.push(c0).len() == 1);
                assert(done.push(cur).len() == 1);
                assert(joined(done.push(cur)) == cur);
                assert(joined(d0.push(c0)) == c0);
            } else {
                assert(joined(done.push(cur)) == joined(d0) + seq![','] + cur);
                assert(joined(d0.push(c0)) == joined(d0) + seq![','] + c0);
            }
            assert(joined(done.push(cur)) =~= joined(d0.push(c0)).push(c));
        }
    }
}

/// a piece that grows by a character that does not cut it
pub proof fn lemma_piece(p: Seq<char>, c: char)
    requires never_below(p), whole(p), level(p) + opened(c) >= 0, c == ',' ==> level(p) > 0,
    ensures never_below(p.push(c)), whole(p.push(c)), split(p.push(c)).2 == split(p).2 + opened(c),
{
    let q = p.push(c);
    assert(q.drop_last() =~= p);
    lemma_level(p); lemma_level(q);
    assert forall|i: int| 0 <= i <= q.len() implies split(#[trigger] q.take(i)).2 >= 0 by {
        if i < q.len() { assert(q.take(i) =~= p.take(i)); } else { assert(q.take(i) =~= q); }
    }
    assert forall|i: int| 0 <= i < q.len() && q[i] == ',' implies split(#[trigger] q.take(i)).2 > 0 by {
        assert(q.take(i) =~= p.take(i));
        if i == p.len() { assert(p.take(i) =~= p); }
    }
}

pub open spec fn closed(p: Seq<char>) -> bool { balanced(p) && whole(p) }

/// as above, for a text whose parentheses may still be open
pub proof fn lemma_pieces(b: Seq<char>)
    requires never_below(b),
    ensures
        forall|i: int| 0 <= i < split(b).0.len() ==> closed(#[trigger] split(b).0[i]),
        never_below(split(b).1), whole(split(b).1), split(split(b).1).2 == split(b).2,
    decreases b.len(),
{
    let (done, cur, depth) = split(b);
    if b.len() == 0 {
        assert(forall|i: int| 0 <= i <= cur.len() ==> #[trigger] cur.take(i) =~= cur);
    } else {
        let a = b.drop_last();
        let c = b.last();
        assert forall|i: int| 0 <= i <= a.len() implies split(#[trigger] a.take(i)).2 >= 0 by { assert(a.take(i) =~= b.take(i)); }
        lemma_pieces(a);
        let (d0, c0, n0) = split(a);
        assert(a.take(a.len() as int) =~= a);
        assert(b.take(b.len() as int) =~= b);
        if c == ',' && n0 == 0 {
            assert(done == d0.push(c0));
            assert(closed(c0));
            assert forall|i: int| 0 <= i <= cur.len() implies split(#[trigger] cur.take(i)).2 >= 0 by { assert(cur.take(i) =~= Seq::<char>::empty()); }
        } else {
            assert(cur == c0.push(c));
            assert(done == d0);
            lemma_level(c0);
            lemma_piece(c0, c);
        }
    }
}

/* scanning */

pub proof fn lemma_grow(b: Seq<char>, i: int)
    requires 0 <= i <= b.len(),
    ensures split(b.take(i)).0.is_prefix_of(split(b).0),
    decreases b.len() - i,
{
    if i < b.len() {
        lemma_grow(b, i + 1);
        assert(b.take(i + 1).drop_last() =~= b.take(i));
    } else {
        assert(b.take(i) =~= b);
    }
}

/// characters that are not special only extend the piece under way
pub proof fn lemma_skip(s: Seq<char>, a: int, i: int, j: int)
    requires 0 <= a <= i <= j <= s.len(), forall|k: int| i <= k < j ==> !special(#[trigger] s[k]),
    ensures
        split(s.subrange(a, j)).0 == split(s.subrange(a, i)).0,
        split(s.subrange(a, j)).1 == split(s.subrange(a, i)).1 + s.subrange(i, j),
        split(s.subrange(a, j)).2 == split(s.subrange(a, i)).2,
        never_below(s.subrange(a, i)) ==> never_below(s.subrange(a, j)),
    decreases j - i,
{
    if i < j {
        lemma_skip(s, a, i, j - 1);
        let b = s.subrange(a, j);
        assert(b.drop_last() =~= s.subrange(a, j - 1));
        assert(b.last() == s[j - 1]);
        assert(s.subrange(i, j) =~= s.subrange(i, j - 1).push(s[j - 1]));
        if never_below(s.subrange(a, i)) {
            let e = s.subrange(a, j - 1);
            assert(e.take(e.len() as int) =~= e);
            lemma_never(s, a, j - 1);
        }
    } else {
        assert(s.subrange(i, j) =~= Seq::<char>::empty());
        assert(split(s.subrange(a, i)).1 + s.subrange(i, j) =~= split(s.subrange(a, i)).1);
    }
}

pub proof fn lemma_never(s: Seq<char>, a: int, j: int)
    requires 0 <= a <= j < s.len(), never_below(s.subrange(a, j)),
    ensures never_below(s.subrange(a, j + 1)) <==> split(s.subrange(a, j + 1)).2 >= 0,
{
    let b = s.subrange(a, j + 1);
    let c = s.subrange(a, j);
    assert(b.take(b.len() as int) =~= b);
    if split(b).2 >= 0 {
        assert forall|i: int| 0 <= i <= b.len() implies split(#[trigger] b.take(i)).2 >= 0 by {
            if i < b.len() { assert(b.take(i) =~= c.take(i)); } else { assert(b.take(i) =~= b); }
        }
    }
}

pub open spec fn indexed(s: Seq<char>, cs: Seq<(usize, char)>) -> bool { cs == crate::text::indices(s) && offset(s, s.len() as int) <= usize::MAX }

pub open spec fn sp() -> spec_fn((usize, char)) -> bool { |p: (usize, char)| special(p.1) }

/// the special characters of a prefix
pub open spec fn specials(cs: Seq<(usize, char)>, pos: int) -> Seq<(usize, char)> { cs.take(pos).filter(sp()) }

pub open spec fn quiet(s: Seq<char>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> !special(#[trigger] s[k]) }

pub proof fn lemma_specials(cs: Seq<(usize, char)>, pos: int)
    requires 0 <= pos < cs.len(),
    ensures specials(cs, pos + 1) == if special(cs[pos].1) { specials(cs, pos).push(cs[pos]) } else { specials(cs, pos) },
{
    let t = cs.take(pos + 1);
    assert(t.drop_last() =~= cs.take(pos));
    assert(t.last() == cs[pos]);
    assert(t =~= cs.take(pos).push(cs[pos]));
    reveal(Seq::filter);
    assert(t.filter(sp()) == { let sub = t.drop_last().filter(sp()); if sp()(t.last()) { sub.push(t.last()) } else { sub } });
}

pub proof fn lemma_prefix(cs: Seq<(usize, char)>, i: int, j: int)
    requires 0 <= i <= j <= cs.len(),
    ensures specials(cs, i).is_prefix_of(specials(cs, j)),
    decreases j - i,
{
    if i < j { lemma_prefix(cs, i, j - 1); lemma_specials(cs, j - 1); }
}

/// where the next special character is
pub proof fn lemma_next(s: Seq<char>, cs: Seq<(usize, char)>, pos: int, k: int) -> (j: int)
    requires
        indexed(s, cs), 0 <= pos <= s.len(),
        specials(cs, pos).len() == k, k < specials(cs, s.len() as int).len(),
    ensures
        pos <= j < s.len(), quiet(s, pos, j), special(s[j]),
        specials(cs, s.len() as int)[k] == (offset(s, j) as usize, s[j]),
        offset(s, j) == specials(cs, s.len() as int)[k].0,
        specials(cs, j + 1).len() == k + 1,
    decreases s.len() - pos,
{
    if pos == s.len() { assert(false); }
    lemma_specials(cs, pos);
    if special(s[pos]) {
        lemma_prefix(cs, pos + 1, s.len() as int);
        assert(specials(cs, pos + 1)[k] == cs[pos]);
        lemma_offset(s, pos, s.len() as int);
        pos
    } else {
        lemma_next(s, cs, pos + 1, k)
    }
}

pub proof fn lemma_rest(s: Seq<char>, cs: Seq<(usize, char)>, pos: int)
    requires indexed(s, cs), 0 <= pos <= s.len(), specials(cs, pos).len() == specials(cs, s.len() as int).len(),
    ensures quiet(s, pos, s.len() as int),
    decreases s.len() - pos,
{
    if pos < s.len() {
        lemma_specials(cs, pos);
        lemma_prefix(cs, pos + 1, s.len() as int);
        lemma_rest(s, cs, pos + 1);
    }
}

/// what is known after the first pos characters, the name being the first p, with `depth` parentheses open
pub open spec fn open_at(s: Seq<char>, p: int, pos: int, q: int, depth: int, params: Seq<Seq<char>>) -> bool {
    &&& 0 < p < pos <= s.len()
    &&& p + 1 <= q <= pos
    &&& is_name(s.take(p)) && s[p] == '('
    &&& never_below(s.subrange(p + 1, pos))
    &&& split(s.subrange(p + 1, pos)).0 == params
    &&& split(s.subrange(p + 1, pos)).1 == s.subrange(q, pos)
    &&& split(s.subrange(p + 1, pos)).2 == depth - 1
    &&& full(params)
    &&& depth >= 1
}

/// nothing but a name before the first special character
pub proof fn lemma_first(s: Seq<char>, j: int)
    requires 0 <= j < s.len(), quiet(s, 0, j), special(s[j]), s[j] != '(' || j == 0,
    ensures forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a),
{
    assert forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a) by {
        if is_call(s, n, a) {
            let b = choose|b: Seq<char>| call_with(s, n, a, b);
            let m = n.len() as int;
            assert(s[m] == '(');
            assert(m >= j);
            if m > j { assert(n[j] == s[j]); }
        }
    }
}

pub proof fn lemma_no_special(s: Seq<char>)
    requires quiet(s, 0, s.len() as int),
    ensures forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a),
{
    assert forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a) by {
        if is_call(s, n, a) {
            let b = choose|b: Seq<char>| call_with(s, n, a, b);
            assert(s[n.len() as int] == '(');
        }
    }
}

/// in a call with the name s.take(p)
pub proof fn lemma_body(s: Seq<char>, p: int, n: Seq<char>, a: Seq<Seq<char>>) -> (b: Seq<char>)
    requires is_call(s, n, a), 0 < p < s.len(), is_name(s.take(p)), s[p] == '(',
    ensures n == s.take(p), p + 1 < s.len(), b == s.subrange(p + 1, s.len() - 1), s.last() == ')', balanced(b), a == pieces(b), full(a),
{
    let b = choose|b: Seq<char>| call_with(s, n, a, b);
    let m = n.len() as int;
    assert(s[m] == '(');
    if m < p { assert(s.take(p)[m] == '('); }
    if p < m { assert(n[p] == '('); }
    assert(n =~= s.take(p));
    assert(b =~= s.subrange(p + 1, s.len() - 1));
    b
}

pub proof fn lemma_step(s: Seq<char>, p: int, j: int)
    requires 0 <= p < j < s.len(),
    ensures
        s.subrange(p + 1, j + 1).drop_last() == s.subrange(p + 1, j),
        s.subrange(p + 1, j + 1).last() == s[j],
        s.subrange(p + 1, j + 1).len() > 0,
{
    assert(s.subrange(p + 1, j + 1).drop_last() =~= s.subrange(p + 1, j));
}

/// the parenthesis that closes the call is not the last character
pub proof fn lemma_early(s: Seq<char>, p: int, pos: int, q: int, j: int, params: Seq<Seq<char>>)
    requires open_at(s, p, pos, q, 1, params), pos <= j < s.len() - 1, quiet(s, pos, j), s[j] == ')',
    ensures forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a),
{
    assert forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a) by {
        if is_call(s, n, a) {
            let b = lemma_body(s, p, n, a);
            lemma_skip(s, p + 1, pos, j);
            lemma_step(s, p, j);
            assert(b.take(j - p) =~= s.subrange(p + 1, j + 1));
            assert(split(b.take(j - p)).2 == -1);
        }
    }
}

/// an empty argument
pub proof fn lemma_hollow(s: Seq<char>, p: int, pos: int, j: int, params: Seq<Seq<char>>)
    requires
        open_at(s, p, pos, j, 1, params), pos == j, j < s.len(), s[j] == ',' || (s[j] == ')' && j == s.len() - 1 && params.len() > 0),
    ensures forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a),
{
    assert forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a) by {
        if is_call(s, n, a) {
            let b = lemma_body(s, p, n, a);
            if s[j] == ',' {
                lemma_step(s, p, j);
                if j == s.len() - 1 { assert(false); }
                assert(b.take(j - p) =~= s.subrange(p + 1, j + 1));
                lemma_grow(b, j - p);
                let d = split(s.subrange(p + 1, j)).0;
                assert(split(b.take(j - p)).0 == d.push(s.subrange(j, j)));
                assert(split(b.take(j - p)).0[d.len() as int] == split(b).0.subrange(0, d.len() as int + 1)[d.len() as int]);
                assert(split(b).0[d.len() as int] == s.subrange(j, j));
                assert(pieces(b)[d.len() as int].len() == 0);
            } else {
                assert(b == s.subrange(p + 1, j));
                assert(b.len() > 0) by { if b.len() == 0 { assert(split(b).0.len() == 0); } }
                assert(pieces(b).last().len() == 0);
            }
        }
    }
}

/// the string ends inside the parentheses
pub proof fn lemma_unclosed(s: Seq<char>, p: int, pos: int, q: int, depth: int, params: Seq<Seq<char>>)
    requires open_at(s, p, pos, q, depth, params), quiet(s, pos, s.len() as int),
    ensures forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a),
{
    assert forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(s, n, a) by {
        if is_call(s, n, a) {
            let b = lemma_body(s, p, n, a);
            lemma_skip(s, p + 1, pos, s.len() as int);
            lemma_step(s, p, s.len() - 1);
            assert(s.subrange(p + 1, s.len() as int) == s.subrange(p + 1, s.len() - 1 + 1));
        }
    }
}

pub proof fn lemma_something(b: Seq<char>)
    requires b.len() > 0,
    ensures split(b).0.len() > 0 || split(b).1.len() > 0,
{
}

/// the parenthesis at the end closes the call
pub proof fn lemma_closed(s: Seq<char>, p: int, pos: int, q: int, j: int, params: Seq<Seq<char>>, args: Seq<Seq<char>>)
    requires
        open_at(s, p, pos, q, 1, params), pos <= j, quiet(s, pos, j), j == s.len() - 1, s[j] == ')',
        if q == j { params.len() == 0 && args == params } else { args == params.push(s.subrange(q, j)) },
    ensures is_call(s, s.take(p), args),
{
    lemma_skip(s, p + 1, pos, j);
    let b = s.subrange(p + 1, j);
    assert(s =~= written(s.take(p), b));
    assert(s.subrange(q, pos) + s.subrange(pos, j) =~= s.subrange(q, j));
    if q == j {
        if b.len() > 0 { lemma_something(b); }
        assert(args =~= pieces(b));
    } else {
        assert(b.len() > 0);
        assert(args == pieces(b));
    }
    assert(call_with(s, s.take(p), args, b));
}

/// one more special character inside the call
pub proof fn lemma_inside(s: Seq<char>, p: int, pos: int, q: int, depth: int, j: int, params: Seq<Seq<char>>)
    requires open_at(s, p, pos, q, depth, params), pos <= j < s.len(), quiet(s, pos, j), special(s[j]),
    ensures
        s[j] == '(' ==> open_at(s, p, j + 1, q, depth + 1, params),
        s[j] == ')' && depth > 1 ==> open_at(s, p, j + 1, q, depth - 1, params),
        s[j] == ',' && depth > 1 ==> open_at(s, p, j + 1, q, depth, params),
        s[j] == ',' && depth == 1 && q < j ==> open_at(s, p, j + 1, j + 1, depth, params.push(s.subrange(q, j))),
        open_at(s, p, j, q, depth, params),
{
    lemma_skip(s, p + 1, pos, j);
    lemma_step(s, p, j);
    lemma_never(s, p + 1, j);
    assert(s.subrange(q, pos) + s.subrange(pos, j) =~= s.subrange(q, j));
    assert(s.subrange(q, j).push(s[j]) =~= s.subrange(q, j + 1));
    assert(s.subrange(j + 1, j + 1) =~= Seq::<char>::empty());
}

pub proof fn lemma_opened(s: Seq<char>, j: int)
    requires 0 < j < s.len(), quiet(s, 0, j), s[j] == '(',
    ensures open_at(s, j, j + 1, j + 1, 1, Seq::empty()),
{
    let e = s.subrange(j + 1, j + 1);
    assert(e =~= Seq::<char>::empty());
    assert forall|i: int| 0 <= i <= e.len() implies split(#[trigger] e.take(i)).2 >= 0 by { assert(e.take(i) =~= Seq::<char>::empty()); }
    assert forall|i: int| 0 <= i < s.take(j).len() implies !special(#[trigger] s.take(j)[i]) by { assert(s.take(j)[i] == s[i]); }
}

@@top
pub proof fn lemma_skip_step<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures s.skip(i).len() > 0, s.skip(i)[0] == s[i], s.skip(i).drop_first() == s.skip(i + 1),
{
    assert(s.skip(i).drop_first() =~= s.skip(i + 1));
}

@@fn fun_call ret r
@@spec
    ensures
        match r {
            Some((name, args)) => is_call(input@, name@, views(args@)),
            None => forall|n: Seq<char>, a: Seq<Seq<char>>| !is_call(input@, n, a),
        },
@@rewrite let mut fun_name = None; ==> let mut fun_name: Option<&str> = None; -- type written out
@@rewrite let mut params = Vec::new(); ==> let mut params: Vec<&str> = Vec::new(); -- type written out
@@rewrite input.char_indices() .filter(|(_, c)| $E) ==> crate::text::filter(crate::text::char_indices(input), |p: &(usize, char)| -> (b: bool) ensures b == special(p.1) { let (_, c) = p; $E }, Ghost(sp())) -- str::char_indices and Iterator::filter through their assumed contracts
@@rewrite &input[$A..$B] ==> crate::text::slice(input, $A, $B) -- slice of a string through its assumed contract
@@rewrite input.len() ==> crate::text::len(input) -- str::len through its assumed contract
@@rewrite fun_name.map(|n| (n, params)) ==> (match fun_name { Some(n) => Some((n, params)), None => None }) -- Option::map written out
@@start
    let ghost s = input@;
    let ghost cs = crate::text::indices(s);
    let ghost mut pos: int = 0;
    let ghost mut p: int = 0;
    let ghost mut q: int = 0;
    proof { assert(cs.take(s.len() as int) =~= cs); assert(specials(cs, 0).len() == 0) by { assert(cs.take(0) =~= Seq::empty()); reveal(Seq::filter); } }
@@before for (new_pos, c) in
    let ghost all = specials(cs, s.len() as int);
    let ghost mut i: int = 0;
    proof { assert(all.skip(0) =~= all); }
@@forwhile 0 todo
@@loop 0
    invariant_except_break
        todo.remaining() == all.skip(i), specials(cs, pos).len() == i,
    invariant
        todo.obeys_prophetic_iter_laws(), 0 <= i <= all.len(),
        s == input@, indexed(s, cs), all == specials(cs, s.len() as int),
        0 <= pos <= s.len(), specials(cs, pos).len() == i,
        paren_stack <= pos,
        match fun_name {
            None => pos == 0 && paren_stack == 0 && last_pos == 0 && params@.len() == 0,
            Some(n) => n@ == s.take(p) && last_pos == offset(s, q) && 0 <= q <= s.len() && last_pos != 0
                && if paren_stack == 0 { pos == s.len() && is_call(s, n@, views(params@)) } else { open_at(s, p, pos, q, paren_stack as int, views(params@)) },
        },
    ensures i == all.len(),
    decreases all.len() - i,
@@bodystart 0
    let ghost j = lemma_next(s, cs, pos, i);
    proof { lemma_skip_step(all, i); assert(all[i] == (new_pos, c)); i = i + 1; }
    proof {
        lemma_offset(s, j, s.len() as int);
        if 0 < j { lemma_offset(s, 0, j); }
        lemma_offset(s, 0, j + 1);
        if j + 1 < s.len() { lemma_offset(s, j + 1, s.len() as int); }
        assert(offset(s, j + 1) == offset(s, j) + 1);
        assert(at(s, new_pos, j));
        if paren_stack >= 1 { lemma_inside(s, p, pos, q, paren_stack as int, j, views(params@)); if q < j { lemma_offset(s, q, j); } assert(at(s, last_pos, q)); }
        else if fun_name is None && (c != '(' || j == 0) { lemma_first(s, j); }
        assert(at(s, 0, 0));
        if paren_stack == 1 && c == ')' && j < s.len() - 1 { lemma_early(s, p, pos, q, j, views(params@)); }
        if paren_stack == 1 && q == j && (c == ',' || (c == ')' && j == s.len() - 1 && params@.len() > 0)) { lemma_hollow(s, p, j, j, views(params@)); }
    }
@@bodyend 0
    proof { pos = j + 1; }
@@before paren_stack = 1;
    proof { p = j; q = j + 1; assert(views(params@) =~= Seq::empty()); lemma_opened(s, j); }
@@before last_pos = new_pos + 1; #1
    proof { lemma_closed(s, p, pos, q, j, pv, views(params@)); q = j + 1; }
@@before params.push($E); #1
    let ghost pv = views(params@);
@@after params.push($E); #1
    proof { assert(views(params@) =~= pv.push(s.subrange(q, j))); q = j + 1; }
@@before assert!(fun_name.is_some()); #0
    let ghost pv = views(params@);
@@after params.push($E); #0
    proof { assert(views(params@) =~= pv.push(s.subrange(q, j))); }
@@before if paren_stack != 0
    proof {
        lemma_rest(s, cs, pos);
        if fun_name is None { lemma_no_special(s); }
        if paren_stack != 0 { lemma_unclosed(s, p, pos, q, paren_stack as int, views(params@)); }
    }

@@# names

@@top
/// input is the whole match of a regular expression without groups
pub open spec fn names(input: Seq<char>, regex: Seq<char>) -> bool {
    &&& crate::text::search(crate::text::anchored(regex), input) is Some
    &&& crate::text::search(crate::text::anchored(regex), input)->0.len() == 1
    &&& crate::text::search(crate::text::anchored(regex), input)->0[0] is Some
}

@@fn matches_fully ret r
@@spec
    requires crate::text::valid(crate::text::anchored(regex@)),
    ensures
        r is Some <==> names(input@, regex@),
        r is Some ==> crate::text::search(crate::text::anchored(regex@), input@)->0[0] == Some(r->0@),
@@rewrite format!("^{}$", regex) ==> crate::text::anchor(regex) -- format! through the contract of this use
@@rewrite matches.get(0) .map(|m| m.as_str()) ==> (match matches.get(0) { Some(m) => Some(m.as_str()), None => None }) -- Option::map written out

@@fn expect_name ret r
@@spec
    requires crate::text::valid(crate::text::anchored(name_regex@)),
    ensures
        r is Ok <==> names(input@, name_regex@),
        r is Ok ==> crate::text::search(crate::text::anchored(name_regex@), input@)->0[0] == Some(r->Ok_0@),

@@top
impl vstd::std_specs::convert::FromSpecImpl<String> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String) -> Self { ParseError::Other(v) }
}

@@fn <ParseError as From<String>>::from ret r

@@# alternatives

@@fn ParseAlternatives::new ret r
@@spec
    ensures r.input@ == s@, r.res is Err,

@@fn ParseAlternatives::then_try ret r
@@spec
    requires self.res is Err ==> prs_fun.requires((self.input,)),
    ensures
        r.input == self.input,
        self.res is Ok ==> r.res == self.res,
        self.res is Err ==> exists|x: Result<T, ParseError>| #[trigger] prs_fun.ensures((self.input,), x) && (x is Ok <==> r.res is Ok) && (x is Ok ==> r.res->Ok_0 == x->Ok_0),

@@fn ParseAlternatives::into_success ret r
@@spec
    requires self.res is Err,
    ensures r.input == self.input, r.res == Ok::<T, FailedAlternatives>(x),

@@fn ParseAlternatives::stack_error ret r
@@spec
    requires self.res is Err,
    ensures r.input == self.input, r.res is Err,
@@rewrite let error_stack = unsafe { self.res .as_mut() .unwrap_err_unchecked() }; error_stack.push((name, e)); ==> match &mut vp_self.res { Ok(_) => { crate::rt::rt_unreachable() } Err(error_stack) => { error_stack.push((name, e)); } } -- the unchecked access as an obligation

@@fn ParseAlternatives::end ret r
@@spec
    ensures r is Ok <==> self.res is Ok, r is Ok ==> r->Ok_0 == self.res->Ok_0,
@@rewrite self.res .map_err(|v| ParseError::AllFailed(v)) ==> (match self.res { Ok(x) => Ok(x), Err(v) => Err(ParseError::AllFailed(v)) }) -- Result::map_err written out
