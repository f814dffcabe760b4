@@module zip::dict src/zip/dict.rs

@@grewrite use bytesize::ByteSize; ==>  -- used by the statistics only
@@drop TrieMap::print_stats -- prints statistics
@@drop <TrieMap as Drop> -- frees the nodes without recursion; no other effect

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::ser::deser_post;

/* ---- a node's table ---- */

pub open spec fn at<T>(c: Content<T>, b: u8) -> Option<T> {
    match c {
        Content::Partial { keys, values } => if keys@.contains(b) { Some(values@[keys@.index_of(b)]) } else { None },
        Content::Full(data) => data@[b as int],
    }
}

pub open spec fn content_ok<T>(c: Content<T>) -> bool {
    match c {
        Content::Partial { keys, values } => keys@.len() == values@.len() && keys@.no_duplicates(),
        Content::Full(data) => true,
    }
}

pub proof fn lemma_index(keys: Seq<u8>, b: u8, i: int)
    requires keys.no_duplicates(), 0 <= i < keys.len(), keys[i] == b,
    ensures keys.contains(b), keys.index_of(b) == i,
{
    let j = keys.index_of(b);
    assert(keys[j] == b);
}

/// other keys have other places
pub proof fn lemma_index_other(keys: Seq<u8>, b: u8, i: int)
    requires keys.no_duplicates(), 0 <= i < keys.len(), keys[i] == b,
    ensures
        keys.contains(b), keys.index_of(b) == i,
        forall|x: u8| #[trigger] keys.contains(x) && x != b ==> keys.index_of(x) != i && 0 <= keys.index_of(x) < keys.len(),
{
    lemma_index(keys, b, i);
    assert forall|x: u8| #[trigger] keys.contains(x) && x != b implies keys.index_of(x) != i && 0 <= keys.index_of(x) < keys.len() by {
        let j = keys.index_of(x);
        assert(keys[j] == x);
    }
}

/// a new key at the end
pub proof fn lemma_index_push(keys: Seq<u8>, b: u8)
    requires keys.no_duplicates(), !keys.contains(b),
    ensures
        keys.push(b).no_duplicates(),
        keys.push(b).contains(b), keys.push(b).index_of(b) == keys.len(),
        forall|x: u8| x != b ==> #[trigger] keys.push(b).contains(x) == keys.contains(x),
        forall|x: u8| x != b && keys.contains(x) ==> #[trigger] keys.push(b).index_of(x) == keys.index_of(x) && 0 <= keys.index_of(x) < keys.len(),
{
    let k2 = keys.push(b);
    assert forall|i: int, j: int| 0 <= i < k2.len() && 0 <= j < k2.len() && i != j implies k2[i] != k2[j] by {
        if i == keys.len() { assert(keys[j] == k2[j]); } else if j == keys.len() { assert(keys[i] == k2[i]); } else { assert(keys[i] == k2[i] && keys[j] == k2[j]); }
    }
    assert(k2[keys.len() as int] == b);
    lemma_index(k2, b, keys.len() as int);
    assert forall|x: u8| x != b implies #[trigger] k2.contains(x) == keys.contains(x) by {
        if keys.contains(x) { let i = keys.index_of(x); assert(k2[i] == x); }
        if k2.contains(x) { let i = k2.index_of(x); assert(k2[i] == x); assert(i < keys.len()); assert(keys[i] == x); }
    }
    assert forall|x: u8| x != b && keys.contains(x) implies #[trigger] k2.index_of(x) == keys.index_of(x) && 0 <= keys.index_of(x) < keys.len() by {
        let i = keys.index_of(x);
        assert(keys[i] == x);
        assert(k2[i] == x);
        lemma_index(k2, x, i);
    }
}

/// the first n keys
pub proof fn lemma_index_take(keys: Seq<u8>, n: int)
    requires keys.no_duplicates(), 0 <= n < keys.len(),
    ensures
        forall|x: u8| #[trigger] keys.take(n + 1).contains(x) == (keys.take(n).contains(x) || x == keys[n]),
        keys.contains(keys[n]), keys.index_of(keys[n]) == n,
        !keys.take(n).contains(keys[n]),
{
    lemma_index(keys, keys[n], n);
    let a = keys.take(n);
    let b = keys.take(n + 1);
    assert forall|x: u8| #[trigger] b.contains(x) == (a.contains(x) || x == keys[n]) by {
        if a.contains(x) { let i = a.index_of(x); assert(a[i] == x); assert(b[i] == x); }
        if x == keys[n] { assert(b[n] == x); }
        if b.contains(x) { let i = b.index_of(x); assert(b[i] == x); if i < n { assert(a[i] == x); } }
    }
    if a.contains(keys[n]) { let i = a.index_of(keys[n]); assert(a[i] == keys[n]); assert(keys[i] == keys[n]); }
}

@@fn Content::new ret r
@@spec
    ensures content_ok(r), forall|b: u8| #[trigger] at(r, b) is None,

@@fn Content::find ret r
@@spec
    ensures
        r is None ==> !keys@.contains(byte),
        r is Some ==> r->Some_0 < keys@.len() && keys@[r->Some_0 as int] == byte,
@@rewrite keys.into_iter() .enumerate() .find(|(_, x)| **x == byte) .map(|(idx, _)| idx) ==> crate::rt::position_of(keys, byte) -- the iterator chain written out as a loop (verified)

@@fn Content::get ret r
@@spec
    requires content_ok(*self),
    ensures match at(*self, byte) { Some(v) => r is Some && *r->Some_0 == v, None => r is None },
@@before values.get(idx)
    proof { lemma_index_other(keys@, byte, idx as int); }

@@fn Content::get_mut ret r
@@spec
    requires content_ok(*old(self)),
    ensures
        content_ok(*final(self)),
        match at(*old(self), byte) {
            Some(v) => r is Some && *r->Some_0 == v
                && forall|b: u8| #[trigger] at(*final(self), b) == if b == byte { Some(*final(r->Some_0)) } else { at(*old(self), b) },
            None => r is None,
        },
@@before values.get_mut(idx)
    proof { lemma_index_other(keys@, byte, idx as int); }

@@fn Content::upsert ret r
@@spec
    requires content_ok(*old(self)),
    ensures
        content_ok(*final(self)), r == at(*old(self), byte),
        forall|b: u8| #[trigger] at(*final(self), b) == if b == byte { Some(new_value) } else { at(*old(self), b) },
    decreases if *old(self) is Partial { 1int } else { 0int },
@@before let target = values.get_mut(existing_idx)
    proof { lemma_index_other(keys@, byte, existing_idx as int); }
@@before if keys.len() <
    proof { lemma_index_push(keys@, byte); }
@@fn Content::to_full
@@spec
    requires *old(self) is Partial, content_ok(*old(self)),
    ensures
        *final(self) is Full, content_ok(*final(self)),
        forall|b: u8| #[trigger] at(*final(self), b) == at(*old(self), b),
@@start
    let ghost ks = self->keys@;
    let ghost vs = self->values@;
@@loop 0 iter it
    invariant
        ks.no_duplicates(), ks.len() == vs.len(),
        it.seq().len() == ks.len(),
        forall|i: int| 0 <= i < ks.len() ==> #[trigger] it.seq()[i] == (ks[i], vs[i]),
        forall|b: u8| #[trigger] full_data@[b as int] == if ks.take(it.index@).contains(b) { Some(vs[ks.index_of(b)]) } else { None },
@@bodystart 0
    proof { lemma_index_take(ks, it.index@); }
@@before *self = Content::Full(
    proof { assert(ks.take(ks.len() as int) =~= ks); }
@@rewrite *self = Content::Full(Box::from(full_data)); ==> *self = Content::Full(Box::new(full_data)); -- Box's From<T> is Box::new

@@# ---- the trie ----

@@top
/// what the trie below a node has for a sequence
pub open spec fn find<T>(n: Node<T>, s: Seq<u8>) -> Option<T>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s.len() == 1 { at(n.values, s[0]) }
    else { match at(n.children, s[0]) { None => None, Some(c) => find(*c, s.drop_first()) } }
}

/// the node that a sequence leads to
pub open spec fn walk<T>(n: Node<T>, s: Seq<u8>) -> Option<Node<T>>
    decreases s.len(),
{
    if s.len() == 0 { Some(n) }
    else { match at(n.children, s[0]) { None => None, Some(c) => walk(*c, s.drop_first()) } }
}

/// every node of the trie is in order
pub open spec fn trie_ok<T>(n: Node<T>) -> bool {
    forall|s: Seq<u8>| #[trigger] walk(n, s) is Some ==> content_ok(walk(n, s)->Some_0.children) && content_ok(walk(n, s)->Some_0.values)
}

pub proof fn lemma_ok<T>(n: Node<T>)
    requires trie_ok(n),
    ensures content_ok(n.children), content_ok(n.values),
{
    assert(walk(n, Seq::<u8>::empty()) is Some);
}

pub proof fn lemma_ok_child<T>(n: Node<T>, b: u8)
    requires trie_ok(n), at(n.children, b) is Some,
    ensures trie_ok(*at(n.children, b)->Some_0),
{
    let c = *at(n.children, b)->Some_0;
    assert forall|s: Seq<u8>| #[trigger] walk(c, s) is Some implies content_ok(walk(c, s)->Some_0.children) && content_ok(walk(c, s)->Some_0.values) by {
        assert((seq![b] + s).drop_first() =~= s);
        assert(walk(n, seq![b] + s) == walk(c, s));
    }
}

pub proof fn lemma_walk_push<T>(n: Node<T>, p: Seq<u8>, b: u8)
    ensures walk(n, p.push(b)) == match walk(n, p) { None => None, Some(c) => match at(c.children, b) { None => None, Some(d) => Some(*d) } },
    decreases p.len(),
{
    if p.len() == 0 {
        assert(p.push(b).drop_first() =~= p);
        reveal_with_fuel(walk, 2);
    } else {
        assert(p.push(b).drop_first() =~= p.drop_first().push(b));
        match at(n.children, p[0]) { None => { } Some(c) => { lemma_walk_push(*c, p.drop_first(), b); } }
    }
}

pub proof fn lemma_find_walk<T>(n: Node<T>, p: Seq<u8>, s: Seq<u8>)
    requires s.len() > 0,
    ensures find(n, p + s) == match walk(n, p) { None => None, Some(c) => find(c, s) },
    decreases p.len(),
{
    if p.len() == 0 {
        assert(p + s =~= s);
    } else {
        assert((p + s).drop_first() =~= p.drop_first() + s);
        match at(n.children, p[0]) { None => { } Some(c) => { lemma_find_walk(*c, p.drop_first(), s); } }
    }
}

pub proof fn lemma_walk_ok<T>(n: Node<T>, p: Seq<u8>)
    requires trie_ok(n), walk(n, p) is Some,
    ensures trie_ok(walk(n, p)->Some_0),
    decreases p.len(),
{
    if p.len() > 0 {
        lemma_ok_child(n, p[0]);
        lemma_walk_ok(*at(n.children, p[0])->Some_0, p.drop_first());
    }
}

pub open spec fn starts_with(s: Seq<u8>, p: Seq<u8>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}

/// nothing is in a new node
pub open spec fn empty_node<T>(n: Node<T>) -> bool {
    content_ok(n.children) && content_ok(n.values) && (forall|b: u8| #[trigger] at(n.children, b) is None) && (forall|b: u8| #[trigger] at(n.values, b) is None)
}

pub proof fn lemma_empty_node<T>(n: Node<T>)
    requires empty_node(n),
    ensures trie_ok(n), forall|s: Seq<u8>| #[trigger] find(n, s) is None,
{
    assert forall|s: Seq<u8>| #[trigger] walk(n, s) is Some implies s.len() == 0 by { }
    assert forall|s: Seq<u8>| #[trigger] find(n, s) is None by { }
}

/// m is n with a new value table, or another child in one place
pub open spec fn child_set<T>(n: Node<T>, m: Node<T>, b: u8, c: Node<T>) -> bool {
    &&& m.values == n.values
    &&& content_ok(m.children)
    &&& forall|x: u8| #[trigger] at(m.children, x) == if x == b { Some(Box::new(c)) } else { at(n.children, x) }
}

pub proof fn lemma_child_set<T>(n: Node<T>, m: Node<T>, b: u8, c: Node<T>)
    requires child_set(n, m, b, c), trie_ok(n), trie_ok(c),
    ensures
        trie_ok(m),
        forall|s: Seq<u8>| #[trigger] find(m, s) == if s.len() > 1 && s[0] == b { find(c, s.drop_first()) } else { find(n, s) },
{
    lemma_ok(n);
    assert forall|s: Seq<u8>| #[trigger] walk(m, s) is Some implies content_ok(walk(m, s)->Some_0.children) && content_ok(walk(m, s)->Some_0.values) by {
        if s.len() > 0 {
            if s[0] == b { assert(walk(c, s.drop_first()) is Some); } else { assert(walk(n, s) is Some); }
        }
    }
}

@@attr Content :: #[verifier::accept_recursive_types(T)]

@@fn Node::new ret r
@@spec
    ensures empty_node(r),
@@fn Node::has_child ret r
@@spec
    requires trie_ok(*self),
    ensures r == at(self.children, byte) is Some,
@@fn Node::child ret r
@@spec
    requires trie_ok(*self),
    ensures
        match at(self.children, byte) { Some(c) => r is Some && *r->Some_0 == *c && trie_ok(*c), None => r is None },
@@start
    proof { lemma_ok(*self); if at(self.children, byte) is Some { lemma_ok_child(*self, byte); } }
@@rewrite .map(Box::as_ref) ==> .map(|c: &Box<Node<T>>| -> (d: &Node<T>) ensures *d == **c { &**c }) -- Box::as_ref, given its contract
@@fn Node::add_child ret r
@@spec
    requires trie_ok(*old(self)),
    ensures
        r == at(old(self).children, byte),
        exists|c: Node<T>| empty_node(c) && #[trigger] child_set(*old(self), *final(self), byte, c),
@@rewrite Box::from(new_child) ==> Box::new(new_child) -- Box's From<T> is Box::new
@@start
    proof { lemma_ok(*self); }
@@tail
    proof { assert(exists|c: Node<T>| empty_node(c) && #[trigger] child_set(*old(self), *self, byte, c)) by {
        let c = *at(self.children, byte)->Some_0;
        assert(child_set(*old(self), *self, byte, c));
    } }
@@fn Node::child_mut ret r
@@spec
    requires trie_ok(*old(self)),
    ensures
        match at(old(self).children, byte) {
            None => r is None,
            Some(c) => r is Some && *r->Some_0 == *c && trie_ok(*c) && child_set(*old(self), *final(self), byte, *final(r->Some_0)),
        },
@@start
    proof { lemma_ok(*self); if at(self.children, byte) is Some { lemma_ok_child(*self, byte); } }
@@rewrite self.children .get_mut(byte) .map(Box::as_mut) ==> match self.children.get_mut(byte) { Some(c) => Some(&mut **c), None => None } -- Option::map and Box::as_mut written out
@@fn Node::value_of ret r
@@spec
    requires trie_ok(*self),
    ensures match at(self.values, byte) { Some(v) => r is Some && *r->Some_0 == v, None => r is None },
@@start
    proof { lemma_ok(*self); }

@@fn Descent::new ret r
@@spec
    ensures r.curr_node == root,
@@fn Descent::down ret r
@@spec
    requires trie_ok(*self.curr_node),
    ensures
        match at(self.curr_node.values, byte) { Some(v) => r.0 is Some && *r.0->Some_0 == v, None => r.0 is None },
        match at(self.curr_node.children, byte) { Some(c) => r.1 is Some && *r.1->Some_0.curr_node == *c && trie_ok(*c), None => r.1 is None },
@@rewrite .map(Self::new) ==> .map(|n: &'a Node<T>| -> (d: Descent<'a, T>) ensures d.curr_node == n { Self::new(n) }) -- the same function, given its contract

@@fn TrieMap::new ret r
@@spec
    ensures empty_node(r.0),
@@fn TrieMap::new_descent ret r
@@spec
    ensures *r.curr_node == self.0,
@@fn TrieMap::insert ret r
@@spec
    requires trie_ok(old(self).0), seq@.len() > 0,
    ensures
        trie_ok(final(self).0), r == find(old(self).0, seq@),
        forall|s: Seq<u8>| #[trigger] find(final(self).0, s) == if s == seq@ { Some(value) } else { find(old(self).0, s) },
@@start
    let ghost n0 = self.0;
    let ghost n1 = final(self).0;
@@before for byte in &seq
    proof { assert(seq@.take(0) =~= Seq::<u8>::empty());
        assert forall|s: Seq<u8>| #[trigger] (seq@.take(0) + s) == s by { assert(seq@.take(0) + s =~= s); }
        assert forall|s: Seq<u8>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); }
        assert forall|s: Seq<u8>| #[trigger] s.take(0) == seq@.take(0) by { assert(s.take(0) =~= seq@.take(0)); }
    }
@@loop 0 iter it
    invariant
        n0 == old(self).0, trie_ok(*curr_node), seq@.len() > 0,
        it.seq().len() == seq@.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == seq@[i],
        inserting(n0, n1, seq@.take(it.index@), *curr_node, *final(curr_node)),
@@bodystart 0
    let ghost n = *curr_node;
    let ghost fin = *final(curr_node);
    let ghost k = it.index@;
    proof { assert(*byte == seq@[k]); }
@@after let prev_child = curr_node.add_child(*byte);
    proof { lemma_new_child(n, *curr_node, *byte); }
@@before curr_node = curr_node.child_mut(
    let ghost m = *curr_node;
@@after curr_node = curr_node.child_mut(*byte).unwrap();
    proof {
        assert(seq@.take(k + 1) =~= seq@.take(k).push(*byte));
        lemma_insert_step(n0, n1, seq@.take(k), *byte, n, m, fin, *curr_node, *final(curr_node));
    }
@@before final_node.values .upsert(
    proof {
        let p = seq@.take(seq@.len() - 1);
        assert(p.push(seq@.last()) =~= seq@);
        lemma_ok(*final_node);
        lemma_insert_end(n0, n1, p, *last_byte, value, *final_node, *final(final_node));
    }

@@top
/// n, found along p in n0, is going to become m, which makes n0 n1
#[verifier::prophetic]
pub open spec fn inserting<T>(n0: Node<T>, n1: Node<T>, p: Seq<u8>, n: Node<T>, m: Node<T>) -> bool {
    &&& forall|s: Seq<u8>| s.len() > 0 ==> #[trigger] find(n, s) == find(n0, p + s)
    &&& trie_ok(m) ==> trie_ok(n1)
    &&& forall|s: Seq<u8>| #[trigger] find(n1, s) == if starts_with(s, p) && s.len() > p.len() { find(m, s.skip(p.len() as int)) } else { find(n0, s) }
}

pub proof fn lemma_new_child<T>(n: Node<T>, m: Node<T>, b: u8)
    requires trie_ok(n), at(n.children, b) is None, exists|c: Node<T>| empty_node(c) && #[trigger] child_set(n, m, b, c),
    ensures trie_ok(m), forall|s: Seq<u8>| #[trigger] find(m, s) == find(n, s),
{
    let c = choose|c: Node<T>| empty_node(c) && #[trigger] child_set(n, m, b, c);
    lemma_empty_node(c);
    lemma_child_set(n, m, b, c);
}

pub proof fn lemma_insert_step<T>(n0: Node<T>, n1: Node<T>, p: Seq<u8>, b: u8, n: Node<T>, m: Node<T>, fin: Node<T>, c: Node<T>, cfin: Node<T>)
    requires
        inserting(n0, n1, p, n, fin),
        forall|s: Seq<u8>| #[trigger] find(m, s) == find(n, s),
        trie_ok(m), at(m.children, b) is Some, *at(m.children, b)->Some_0 == c,
        child_set(m, fin, b, cfin),
    ensures inserting(n0, n1, p.push(b), c, cfin),
{
    let q = p.push(b);
    assert forall|s: Seq<u8>| s.len() > 0 implies #[trigger] find(c, s) == find(n0, q + s) by {
        let t = seq![b] + s;
        assert(t.drop_first() =~= s);
        assert(p + t =~= q + s);
        assert(find(m, t) == find(c, s));
        assert(find(n, t) == find(n0, p + t));
    }
    if trie_ok(cfin) { lemma_child_set(m, fin, b, cfin); }
    assert forall|s: Seq<u8>| #[trigger] find(n1, s) == if starts_with(s, q) && s.len() > q.len() { find(cfin, s.skip(q.len() as int)) } else { find(n0, s) } by {
        if starts_with(s, p) && s.len() > p.len() {
            let t = s.skip(p.len() as int);
            assert(p + t =~= s);
            assert(find(n1, s) == find(fin, t));
            assert(t[0] == s[p.len() as int]);
            if t.len() > 1 && t[0] == b {
                assert(s.take(q.len() as int) =~= q);
                assert(t.drop_first() =~= s.skip(q.len() as int));
            } else {
                if starts_with(s, q) { assert(s[p.len() as int] == q[p.len() as int]); }
                assert(find(fin, t) == find(m, t));
                assert(find(n, t) == find(n0, p + t));
            }
        } else {
            if starts_with(s, q) { assert(s.take(p.len() as int) =~= s.take(q.len() as int).take(p.len() as int)); assert(q.take(p.len() as int) =~= p); }
        }
    }
}

/// the value goes into the last node
pub proof fn lemma_insert_end<T>(n0: Node<T>, n1: Node<T>, p: Seq<u8>, b: u8, v: T, n: Node<T>, m: Node<T>)
    requires inserting(n0, n1, p, n, m), trie_ok(n),
    ensures
        at(n.values, b) == find(n0, p.push(b)),
        m.children == n.children && content_ok(m.values) && (forall|x: u8| #[trigger] at(m.values, x) == if x == b { Some(v) } else { at(n.values, x) })
            ==> trie_ok(n1) && forall|s: Seq<u8>| #[trigger] find(n1, s) == if s == p.push(b) { Some(v) } else { find(n0, s) },
{
    assert(p + seq![b] =~= p.push(b));
    assert(find(n, seq![b]) == find(n0, p + seq![b]));
    if m.children == n.children && content_ok(m.values) && (forall|x: u8| #[trigger] at(m.values, x) == if x == b { Some(v) } else { at(n.values, x) }) {
        lemma_ok(n);
        assert forall|s: Seq<u8>| #[trigger] walk(m, s) is Some implies content_ok(walk(m, s)->Some_0.children) && content_ok(walk(m, s)->Some_0.values) by {
            if s.len() > 0 { assert(walk(n, s) == walk(m, s)); }
        }
        assert forall|s: Seq<u8>| #[trigger] find(n1, s) == if s == p.push(b) { Some(v) } else { find(n0, s) } by {
            if starts_with(s, p) && s.len() > p.len() {
                let t = s.skip(p.len() as int);
                assert(p + t =~= s);
                assert(find(n, t) == find(n0, p + t));
                if t.len() == 1 && t[0] == b { assert(s =~= p.push(b)); }
                if s == p.push(b) { assert(t =~= seq![b]); }
            } else {
                if s == p.push(b) { assert(s.take(p.len() as int) =~= p); }
            }
        }
    }
}

@@# ---- codes ----

@@fn Abbrev::new ret r
@@spec
    ensures r.counter == 0,
@@fn Abbrev::start_after_trivial ret r
@@spec
    ensures r.counter == 0x100,
@@fn Abbrev::next ret r
@@spec
    ensures
        old(self).counter == u16::MAX ==> r is None && final(self).counter == old(self).counter,
        old(self).counter < u16::MAX ==> r == Some(old(self).counter) && final(self).counter == old(self).counter + 1,

@@# ---- the input ----

@@top
impl<I: Iterator<Item = u8>> vstd::std_specs::iter::IteratorSpecImpl for Input<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.input.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<u8> { self.left_over@.reverse() + self.input.remaining() }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.input.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<u8> { None }
}

@@fn <Input as Iterator>::next ret r
@@rewrite self.left_over .pop() .or_else(|| self.input.next()) ==> match self.left_over.pop() { Some(b) => Some(b), None => self.input.next() } -- Option::or_else written out
@@start
    proof { lemma_reverse_last(self.left_over@); }
@@top
pub proof fn lemma_reverse_last(s: Seq<u8>)
    ensures
        s.len() == 0 ==> s.reverse().len() == 0,
        s.len() > 0 ==> s.reverse()[0] == s.last() && s.reverse().drop_first() == s.drop_last().reverse(),
{
    if s.len() > 0 { assert(s.reverse().drop_first() =~= s.drop_last().reverse()); }
}
@@fn Input::new ret r
@@spec
    ensures r.input == input, r.left_over@.len() == 0,
@@fn Input::save_unused
@@spec
    ensures final(self).input == old(self).input, final(self).left_over@.reverse() == unused@ + old(self).left_over@.reverse(),
@@start
    let ghost un = unused@;
@@finish
    proof { assert(un.reverse().reverse() =~= un); assert(self.left_over@.reverse() =~= un + old(self).left_over@.reverse()); }

@@# ---- the encoder ----

@@top
/* The dictionary is the sequence of the words known, in the order of their
   codes. */

pub open spec fn is_match(d: Seq<Seq<u8>>, inp: Seq<u8>, n: nat) -> bool {
    1 <= n <= inp.len() && d.contains(inp.take(n as int))
}

/// the length of the longest word, up to n, that starts the input
pub open spec fn longest_upto(d: Seq<Seq<u8>>, inp: Seq<u8>, n: nat) -> nat
    decreases n,
{
    if n == 0 { 0 } else if is_match(d, inp, n) { n } else { longest_upto(d, inp, (n - 1) as nat) }
}

pub open spec fn longest(d: Seq<Seq<u8>>, inp: Seq<u8>) -> nat { longest_upto(d, inp, inp.len()) }

pub open spec fn code_of(d: Seq<Seq<u8>>, w: Seq<u8>) -> u16 { d.index_of(w) as u16 }

/// the dictionary after a pair: 65535 is not a code
pub open spec fn grown(d: Seq<Seq<u8>>, w: Seq<u8>) -> Seq<Seq<u8>> {
    if d.len() < 0xffff { d.push(w) } else { d }
}

pub open spec fn singles(n: nat) -> Seq<Seq<u8>> { Seq::new(n, |i: int| seq![i as u8]) }

/// every single byte is a word
pub open spec fn has_singles(d: Seq<Seq<u8>>) -> bool {
    d.len() >= 256 && forall|b: int| 0 <= b < 256 ==> #[trigger] d[b] == seq![b as u8]
}

/// the format: what the encoder must emit
pub open spec fn enc(d: Seq<Seq<u8>>, inp: Seq<u8>) -> Seq<(u16, u16)>
    decreases inp.len(),
{
    let n1 = longest(d, inp);
    let rest = inp.skip(n1 as int);
    let n2 = longest(d, rest);
    if n1 == 0 || n1 > inp.len() { Seq::empty() }
    else if n2 == 0 || n2 > rest.len() { seq![(code_of(d, inp.take(n1 as int)), ZIP_SPECIAL_EOF)] }
    else {
        seq![(code_of(d, inp.take(n1 as int)), code_of(d, rest.take(n2 as int)))]
            + enc(grown(d, inp.take((n1 + n2) as int)), inp.skip((n1 + n2) as int))
    }
}

/// pairs of 16-bit little-endian codes
pub open spec fn pair_bytes(s: Seq<(u16, u16)>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { le_seq(s[0].0 as nat, 2) + le_seq(s[0].1 as nat, 2) + pair_bytes(s.drop_first()) }
}

pub open spec fn dict_wf(d: Seq<Seq<u8>>) -> bool {
    &&& d.len() <= 0xffff
    &&& d.no_duplicates()
    &&& forall|c: int| 0 <= c < d.len() ==> (#[trigger] d[c]).len() > 0
}

/// the trie says of every sequence whether it is a word, and its code
pub open spec fn trie_has(n: Node<Symbol>, d: Seq<Seq<u8>>) -> bool {
    forall|s: Seq<u8>| match #[trigger] find(n, s) { Some(c) => c < d.len() && d[c as int] == s, None => !d.contains(s) }
}

impl<I> DictEncoder<I> {
    pub open spec fn is_dict(&self, d: Seq<Seq<u8>>) -> bool {
        &&& dict_wf(d)
        &&& trie_ok(self.trie.0)
        &&& self.abbrev.counter == d.len()
        &&& trie_has(self.trie.0, d)
    }
}

pub proof fn lemma_code(n: Node<Symbol>, d: Seq<Seq<u8>>, w: Seq<u8>)
    requires trie_has(n, d), dict_wf(d),
    ensures
        find(n, w) is Some <==> d.contains(w),
        find(n, w) is Some ==> find(n, w) == Some(code_of(d, w)) && d[code_of(d, w) as int] == w,
{
    if let Some(c) = find(n, w) {
        assert(d[c as int] == w);
        let k = d.index_of(w);
        assert(d[k] == w);
        assert(k == c as int);
    }
}

pub proof fn lemma_dict_push(n: Node<Symbol>, m: Node<Symbol>, d: Seq<Seq<u8>>, w: Seq<u8>)
    requires
        trie_has(n, d), dict_wf(d), !d.contains(w), w.len() > 0, d.len() < 0xffff,
        forall|s: Seq<u8>| #[trigger] find(m, s) == if s == w { Some(d.len() as u16) } else { find(n, s) },
    ensures trie_has(m, d.push(w)), dict_wf(d.push(w)),
{
    let e = d.push(w);
    assert forall|s: Seq<u8>| match #[trigger] find(m, s) { Some(c) => c < e.len() && e[c as int] == s, None => !e.contains(s) } by {
        if s == w {
            assert(e[d.len() as int] == w);
        } else {
            match find(n, s) {
                Some(c) => { assert(e[c as int] == d[c as int]); }
                None => {
                    if e.contains(s) {
                        let k = choose|k: int| 0 <= k < e.len() && e[k] == s;
                        assert(k != d.len());
                        assert(d[k] == s);
                        assert(d.contains(s));
                    }
                }
            }
        }
    }
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by {
        if i == d.len() { assert(d[j] == e[j]); assert(d.contains(d[j])); }
        else if j == d.len() { assert(d[i] == e[i]); assert(d.contains(d[i])); }
        else { assert(d[i] == e[i] && d[j] == e[j]); }
    }
}

pub proof fn lemma_longest(d: Seq<Seq<u8>>, inp: Seq<u8>, n: nat)
    ensures
        longest_upto(d, inp, n) <= n,
        longest_upto(d, inp, n) > 0 ==> is_match(d, inp, longest_upto(d, inp, n)),
        forall|m: nat| longest_upto(d, inp, n) < m <= n ==> !#[trigger] is_match(d, inp, m),
    decreases n,
{
    if n > 0 { lemma_longest(d, inp, (n - 1) as nat); }
}

/// nothing longer matches from k on
pub proof fn lemma_longest_stop(d: Seq<Seq<u8>>, inp: Seq<u8>, k: nat, n: nat)
    requires k <= n, forall|m: nat| k < m <= n ==> !#[trigger] is_match(d, inp, m),
    ensures longest_upto(d, inp, n) == longest_upto(d, inp, k),
    decreases n,
{
    if k < n { lemma_longest_stop(d, inp, k, (n - 1) as nat); }
}

/// where single bytes are words, something always matches
pub proof fn lemma_longest_some(d: Seq<Seq<u8>>, inp: Seq<u8>)
    requires has_singles(d),
    ensures longest(d, inp) <= inp.len(), inp.len() > 0 ==> 1 <= longest(d, inp) && d.contains(inp.take(longest(d, inp) as int)),
{
    lemma_longest(d, inp, inp.len());
    if inp.len() == 0 { return; }
    assert(inp.take(1) =~= seq![inp[0]]);
    assert(d[inp[0] as int] == seq![(inp[0] as int) as u8]);
    assert(d.contains(inp.take(1)));
    assert(is_match(d, inp, 1));
}

/// what the walk along the input finds
pub proof fn lemma_walk_input(n: Node<Symbol>, d: Seq<Seq<u8>>, inp: Seq<u8>, k: nat)
    requires trie_has(n, d), dict_wf(d), k < inp.len(), walk(n, inp.take(k as int)) is Some,
    ensures
        walk(n, inp.take((k + 1) as int)) == match at(walk(n, inp.take(k as int))->Some_0.children, inp[k as int]) { None => None, Some(c) => Some(*c) },
        match at(walk(n, inp.take(k as int))->Some_0.values, inp[k as int]) {
            Some(c) => is_match(d, inp, k + 1) && c == code_of(d, inp.take((k + 1) as int)) && longest_upto(d, inp, k + 1) == k + 1,
            None => longest_upto(d, inp, k + 1) == longest_upto(d, inp, k),
        },
{
    let p = inp.take(k as int);
    let b = inp[k as int];
    assert(inp.take((k + 1) as int) =~= p.push(b));
    assert(p.push(b) =~= p + seq![b]);
    lemma_walk_push(n, p, b);
    lemma_find_walk(n, p, seq![b]);
    lemma_code(n, d, p.push(b));
}

/// where the walk has ended, no longer word matches
pub proof fn lemma_walk_end(n: Node<Symbol>, d: Seq<Seq<u8>>, inp: Seq<u8>, k: nat)
    requires trie_has(n, d), dict_wf(d), k <= inp.len(), walk(n, inp.take(k as int)) is None,
    ensures longest(d, inp) == longest_upto(d, inp, k),
{
    assert forall|m: nat| k < m <= inp.len() implies !#[trigger] is_match(d, inp, m) by {
        let p = inp.take(k as int);
        let s = inp.take(m as int).skip(k as int);
        assert(inp.take(m as int) =~= p + s);
        lemma_find_walk(n, p, s);
        lemma_code(n, d, inp.take(m as int));
    }
    lemma_longest_stop(d, inp, k, inp.len());
}

@@fn DictEncoder::new ret r
@@spec
    ensures r.input.input == input, r.input.left_over@.len() == 0, r.is_dict(singles(256)),
@@loop 0 iter it
    invariant
        zip.input.input == input, zip.input.left_over@.len() == 0,
        zip.is_dict(singles(it.index@ as nat)),
        it.seq().len() == 256, forall|i: int| 0 <= i < 256 ==> #[trigger] it.seq()[i] == i,
@@bodystart 0
    proof {
        let d = singles(it.index@ as nat);
        assert(b == it.index@);
        assert(d.push(seq![b]) =~= singles((it.index@ + 1) as nat));
        assert(!d.contains(seq![b])) by { assert forall|c: int| 0 <= c < d.len() implies d[c] != seq![b] by { assert(d[c][0] == c); } }
    }
@@before return zip;
    proof { assert(zip.is_dict(singles(256))); }
@@fn DictEncoder::create_symbol
@@spec
    requires seq@.len() > 0, exists|d: Seq<Seq<u8>>| #[trigger] old(self).is_dict(d) && !d.contains(seq@),
    ensures
        final(self).input == old(self).input,
        forall|d: Seq<Seq<u8>>| #[trigger] old(self).is_dict(d) && !d.contains(seq@) ==> final(self).is_dict(grown(d, seq@)),
@@after self.trie.insert(seq, new_code);
    proof {
        assert forall|d: Seq<Seq<u8>>| #[trigger] old(self).is_dict(d) && !d.contains(seq@) implies self.is_dict(grown(d, seq@)) by {
            lemma_dict_push(old(self).trie.0, self.trie.0, d, seq@);
        }
    }

@@top
/// the encoder knows exactly these words, the single bytes among them
pub open spec fn knows<I>(e: DictEncoder<I>, d: Seq<Seq<u8>>) -> bool { e.is_dict(d) && has_singles(d) }

pub open spec fn find_post(d: Seq<Seq<u8>>, inp: Seq<u8>, sym: Option<Symbol>, seq: Seq<u8>) -> bool {
    &&& inp.len() == 0 ==> sym is None && seq.len() == 0
    &&& inp.len() > 0 ==> sym == Some(code_of(d, inp.take(longest(d, inp) as int))) && seq == inp.take(longest(d, inp) as int)
}

@@fn DictEncoder::find_symbol ret r
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@spec
    requires old(self).input.obeys_prophetic_iter_laws(), exists|d: Seq<Seq<u8>>| #[trigger] knows(*old(self), d),
    ensures
        final(self).trie == old(self).trie, final(self).abbrev == old(self).abbrev,
        final(self).input.obeys_prophetic_iter_laws(),
        forall|d: Seq<Seq<u8>>| #[trigger] knows(*old(self), d) ==> find_post(d, old(self).input.remaining(), r.0, r.1@),
        final(self).input.remaining() == old(self).input.remaining().skip(r.1@.len() as int),
        r.1@.len() <= old(self).input.remaining().len(),
@@start
    let ghost d = choose|d: Seq<Seq<u8>>| #[trigger] knows(*old(self), d);
    let ghost inp = self.input.remaining();
    let ghost mut k: int = 0;
    let ghost root = self.trie.0;
    proof { assert(inp.take(0) =~= Seq::<u8>::empty()); }
@@loop 0
    invariant_except_break
        walk(root, inp.take(k)) is Some, *descent.curr_node == walk(root, inp.take(k))->Some_0,
    invariant
        self.trie == old(self).trie, self.abbrev == old(self).abbrev, self.input.obeys_prophetic_iter_laws(),
        knows(*old(self), d), root == self.trie.0,
        0 <= k <= inp.len(), self.input.remaining() == inp.skip(k),
        longest_seq@ + extra_bytes@ == inp.take(k),
        longest_seq@.len() == longest_upto(d, inp, k as nat),
        longest_symbol == if longest_seq@.len() == 0 { None } else { Some(code_of(d, longest_seq@)) },
    ensures
        longest_seq@.len() == longest(d, inp),
@@bodystart 0
    proof {
        assert(inp.skip(k)[0] == inp[k]);
        assert(inp.skip(k).drop_first() =~= inp.skip(k + 1));
        assert(inp.take(k + 1) =~= inp.take(k).push(inp[k]));
        lemma_walk_ok(root, inp.take(k));
        lemma_walk_input(root, d, inp, k as nat);
        k = k + 1;
    }
@@before match new_descent
    proof {
        assert(longest_seq@ + extra_bytes@ =~= inp.take(k));
        if longest_seq@.len() > 0 { assert(longest_seq@ =~= inp.take(longest_seq@.len() as int)); }
    }
@@before break;
    proof { lemma_walk_end(root, d, inp, k as nat); }
@@before self.input.save_unused(extra_bytes);
    proof {
        lemma_longest_some(d, inp);
        assert(inp.take(k) + self.input.remaining() =~= inp);
        lemma_cut(longest_seq@, extra_bytes@, self.input.remaining());
        assert(longest_seq@ =~= inp.take(longest_seq@.len() as int));
        assert forall|e: Seq<Seq<u8>>| #[trigger] knows(*old(self), e) implies e == d by { lemma_same_dict(root, d, e); }
    }
@@top
pub proof fn lemma_cut(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures ((a + b) + c).skip(a.len() as int) == b + c, ((a + b) + c).take(a.len() as int) == a,
{
    assert(((a + b) + c).skip(a.len() as int) =~= b + c);
    assert(((a + b) + c).take(a.len() as int) =~= a);
}

/// one trie, one dictionary
pub proof fn lemma_same_dict(n: Node<Symbol>, d: Seq<Seq<u8>>, e: Seq<Seq<u8>>)
    requires trie_has(n, d), trie_has(n, e), dict_wf(d), dict_wf(e), d.len() == e.len(),
    ensures d == e,
{
    assert forall|i: int| 0 <= i < d.len() implies d[i] == e[i] by {
        assert(d.contains(d[i]));
        lemma_code(n, d, d[i]);
        lemma_code(n, e, d[i]);
        let c = find(n, d[i])->Some_0 as int;
        assert(d[c] == d[i]);
        assert(c == i);
    }
    assert(d =~= e);
}

@@top
/// the word of a code
pub open spec fn word(d: Seq<Seq<u8>>, c: u16) -> Seq<u8> { if c == ZIP_SPECIAL_EOF { Seq::empty() } else { d[c as int] } }

/// a code that stands for something
pub open spec fn valid(d: Seq<Seq<u8>>, c: u16) -> bool { c == ZIP_SPECIAL_EOF || c < d.len() }

/// how much of the input a pair stands for, and what is known after it
pub open spec fn pair_len(d: Seq<Seq<u8>>, p: (u16, u16)) -> nat { word(d, p.0).len() + word(d, p.1).len() }
pub open spec fn pair_dict(d: Seq<Seq<u8>>, p: (u16, u16)) -> Seq<Seq<u8>> {
    if p.1 == ZIP_SPECIAL_EOF { d } else { grown(d, word(d, p.0) + word(d, p.1)) }
}

/// one step of the format
pub open spec fn pair_post(d: Seq<Seq<u8>>, inp: Seq<u8>, p: (u16, u16), left: Seq<u8>) -> bool {
    let s = enc(d, inp);
    &&& s.len() > 0
    &&& s[0] == p
    &&& 0 < pair_len(d, p) <= inp.len()
    &&& left == inp.skip(pair_len(d, p) as int)
    &&& s.drop_first() == enc(pair_dict(d, p), left)
}

pub proof fn lemma_contains_code(d: Seq<Seq<u8>>, w: Seq<u8>)
    requires dict_wf(d), d.contains(w),
    ensures code_of(d, w) < d.len(), d[code_of(d, w) as int] == w, code_of(d, w) != ZIP_SPECIAL_EOF, word(d, code_of(d, w)) == w,
{
    assert(d[d.index_of(w)] == w);
}

/// the last, unpaired, word
pub proof fn lemma_pair_one(d: Seq<Seq<u8>>, inp: Seq<u8>)
    requires has_singles(d), dict_wf(d), inp.len() > 0, longest(d, inp) == inp.len(),
    ensures pair_post(d, inp, (code_of(d, inp), ZIP_SPECIAL_EOF), Seq::empty()), inp.take(longest(d, inp) as int) == inp,
{
    lemma_longest_some(d, inp);
    assert(inp.take(inp.len() as int) =~= inp);
    lemma_contains_code(d, inp);
    let p = (code_of(d, inp), ZIP_SPECIAL_EOF);
    assert(inp.skip(inp.len() as int) =~= Seq::<u8>::empty());
    assert(enc(d, inp) == seq![p]);
    assert(enc(d, inp).drop_first() =~= Seq::<(u16, u16)>::empty());
}

/// a pair of words
pub proof fn lemma_pair_two(d: Seq<Seq<u8>>, inp: Seq<u8>, n1: nat, n2: nat)
    requires
        has_singles(d), dict_wf(d), inp.len() > 0, n1 == longest(d, inp), inp.skip(n1 as int).len() > 0, n2 == longest(d, inp.skip(n1 as int)),
    ensures
        n1 > 0, n2 > 0, n1 + n2 <= inp.len(),
        pair_post(d, inp, (code_of(d, inp.take(n1 as int)), code_of(d, inp.skip(n1 as int).take(n2 as int))), inp.skip(n1 as int).skip(n2 as int)),
        inp.take(n1 as int) + inp.skip(n1 as int).take(n2 as int) == inp.take((n1 + n2) as int),
        pair_dict(d, (code_of(d, inp.take(n1 as int)), code_of(d, inp.skip(n1 as int).take(n2 as int)))) == grown(d, inp.take((n1 + n2) as int)),
        !d.contains(inp.take((n1 + n2) as int)),
{
    let rest = inp.skip(n1 as int);
    lemma_longest_some(d, inp);
    lemma_longest_some(d, rest);
    lemma_contains_code(d, inp.take(n1 as int));
    lemma_contains_code(d, rest.take(n2 as int));
    let p = (code_of(d, inp.take(n1 as int)), code_of(d, rest.take(n2 as int)));
    assert(inp.take(n1 as int) + rest.take(n2 as int) =~= inp.take((n1 + n2) as int));
    assert(rest.skip(n2 as int) =~= inp.skip((n1 + n2) as int));
    let t = enc(grown(d, inp.take((n1 + n2) as int)), inp.skip((n1 + n2) as int));
    assert(enc(d, inp) == seq![p] + t);
    assert(enc(d, inp).drop_first() =~= t);
    lemma_longest(d, inp, inp.len());
    if d.contains(inp.take((n1 + n2) as int)) { assert(is_match(d, inp, n1 + n2)); }
}

@@fn DictEncoder::next_pair ret r
@@spec
    requires old(self).input.obeys_prophetic_iter_laws(), exists|d: Seq<Seq<u8>>| #[trigger] knows(*old(self), d),
    ensures
        final(self).input.obeys_prophetic_iter_laws(),
        forall|d: Seq<Seq<u8>>| #[trigger] knows(*old(self), d) ==> match r {
            None => old(self).input.remaining().len() == 0 && knows(*final(self), d) && final(self).input.remaining().len() == 0,
            Some(p) => knows(*final(self), pair_dict(d, p)) && pair_post(d, old(self).input.remaining(), p, final(self).input.remaining()),
        },
@@start
    let ghost inp = self.input.remaining();
    let ghost e0 = *self;
@@before assert!(seq1.len() > 0);
    proof {
        assert forall|d: Seq<Seq<u8>>| #[trigger] knows(e0, d) implies seq1@.len() > 0 by { lemma_longest_some(d, inp); }
    }
@@before let (symbol2, mut seq2) = self.find_symbol();
    proof {
        assert forall|d: Seq<Seq<u8>>| #[trigger] knows(e0, d) implies knows(*self, d) by { }
    }
@@before return Some((symbol1, ZIP_SPECIAL_EOF));
    proof {
        assert forall|d: Seq<Seq<u8>>| #[trigger] knows(e0, d) implies knows(*self, pair_dict(d, (symbol1, ZIP_SPECIAL_EOF))) && pair_post(d, inp, (symbol1, ZIP_SPECIAL_EOF), self.input.remaining()) by {
            lemma_longest_some(d, inp);
            lemma_pair_one(d, inp);
            assert(self.input.remaining() =~= Seq::<u8>::empty());
        }
    }
@@before assert!(seq2.len() > 0);
    proof {
        assert forall|d: Seq<Seq<u8>>| #[trigger] knows(e0, d) implies seq2@.len() > 0 by { lemma_longest_some(d, inp.skip(longest(d, inp) as int)); lemma_longest_some(d, inp); }
    }
@@before self.create_symbol(&total_seq);
    let ghost e1 = *self;
    proof {
        assert forall|d: Seq<Seq<u8>>| #[trigger] knows(e0, d) implies
            e1.is_dict(d) && !d.contains(total_seq@) && total_seq@.len() > 0
            && pair_dict(d, (symbol1, symbol2)) == grown(d, total_seq@)
            && pair_post(d, inp, (symbol1, symbol2), e1.input.remaining())
        by {
            assert(knows(e1, d));
            lemma_longest_some(d, inp);
            lemma_pair_two(d, inp, longest(d, inp), longest(d, inp.skip(longest(d, inp) as int)));
        }
    }
@@after self.create_symbol(&total_seq);
    proof {
        assert forall|d: Seq<Seq<u8>>| #[trigger] knows(e0, d) implies knows(*self, pair_dict(d, (symbol1, symbol2))) by {
            assert(self.is_dict(grown(d, total_seq@)));
            assert(has_singles(grown(d, total_seq@))) by {
                assert forall|b: int| 0 <= b < 256 implies #[trigger] grown(d, total_seq@)[b] == seq![b as u8] by { assert(d[b] == seq![b as u8]); }
            }
        }
    }

@@fn zip_dict_encode ret r
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@rewrite zip.trie.print_stats(); ==>  -- prints statistics
@@spec
    requires bytes.obeys_prophetic_iter_laws(),
    ensures
        r is Ok ==> (*final(output)).written() == (*old(output)).written() + pair_bytes(enc(singles(256), bytes.remaining()))
            && (*final(output)).fut() == (*old(output)).fut(),
        (*old(output)).infallible() ==> r is Ok && (*final(output)).infallible(),
@@start
    let ghost inp = bytes.remaining();
    let ghost mut d = singles(256);
    let ghost mut k: int = 0;
    let ghost mut fuel: int = inp.len() as int + 1;
    let ghost target = (*output).written() + pair_bytes(enc(singles(256), inp));
    proof { assert(inp.skip(0) =~= inp); }
@@loop 0
    invariant
        zip.input.obeys_prophetic_iter_laws(),
        knows(zip, d), 0 <= k <= inp.len(), zip.input.remaining() == inp.skip(k),
        target == (*output).written() + pair_bytes(enc(d, inp.skip(k))),
        (*output).fut() == (*old(output)).fut(),
        (*old(output)).infallible() ==> (*output).infallible(),
        inp.len() - k < fuel,
    ensures
        target == (*output).written(),
@@bodystart 0
    proof { fuel = inp.len() - k; }
    let ghost p = (symbol1, symbol2);
    let ghost out0 = (*output).written();
    let ghost d0 = d;
    let ghost k0 = k;
    proof {
        k = k + pair_len(d, p);
        d = pair_dict(d, p);
        assert(inp.skip(k0).skip(pair_len(d0, p) as int) =~= inp.skip(k));
    }
@@bodyend 0
    proof {
        assert((*output).written() =~= out0 + (le_seq(symbol1 as nat, 2) + le_seq(symbol2 as nat, 2)));
        assert((*output).written() + pair_bytes(enc(d, inp.skip(k))) =~= out0 + pair_bytes(enc(d0, inp.skip(k0))));
    }

@@# ---- the decoder ----

@@top
/// the format: what these bytes stand for (nothing, from an invalid code on)
pub open spec fn sdec(d: Seq<Seq<u8>>, s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    let c1 = le_val(s.take(2)) as u16;
    let c2 = le_val(s.skip(2).take(2)) as u16;
    if s.len() < 4 || !valid(d, c1) || !valid(d, c2) { Seq::empty() }
    else {
        let w = word(d, c1) + word(d, c2);
        w + sdec(grown(d, w), s.skip(4))
    }
}

impl<I: Iterator<Item = u8>> DictDecoder<I> {
    /// the words known
    pub open spec fn dict(&self) -> Seq<Seq<u8>> { Seq::new(self.abbrev.counter as nat, |c: int| self.mapping@[c as u16]@) }

    pub open spec fn wf(&self) -> bool {
        &&& self.encoded_stream.obeys_prophetic_iter_laws()
        &&& self.prev_decoded.obeys_prophetic_iter_laws()
        &&& forall|c: u16| #[trigger] self.mapping@.contains_key(c) <==> (c == ZIP_SPECIAL_EOF || c < self.abbrev.counter)
        &&& self.mapping@[ZIP_SPECIAL_EOF]@.len() == 0
    }
}

impl<I: Iterator<Item = u8>> vstd::std_specs::iter::IteratorSpecImpl for DictDecoder<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.wf() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<u8> { IteratorSpec::remaining(&self.prev_decoded) + sdec(self.dict(), self.encoded_stream.remaining()) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.encoded_stream.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<u8> { None }
}

@@fn zip_dict_decode ret r
@@spec
    requires encoded_stream.obeys_prophetic_iter_laws(),
    ensures
        r.obeys_prophetic_iter_laws(),
        r.remaining() == sdec(singles(256), encoded_stream.remaining()),
        r.will_return_none() == encoded_stream.will_return_none(),

@@fn DictDecoder::new ret r
@@spec
    requires encoded_stream.obeys_prophetic_iter_laws(),
    ensures r.wf(), r.dict() == singles(256), r.encoded_stream == encoded_stream, r.prev_decoded.remaining().len() == 0,
@@start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@loop 0 iter it
    invariant
        decoder.encoded_stream == encoded_stream, decoder.prev_decoded.obeys_prophetic_iter_laws(), decoder.prev_decoded.remaining().len() == 0,
        encoded_stream.obeys_prophetic_iter_laws(),
        decoder.abbrev.counter == 0x100,
        it.seq().len() == 256, forall|i: int| 0 <= i < 256 ==> #[trigger] it.seq()[i] == i,
        forall|c: u16| #[trigger] decoder.mapping@.contains_key(c) <==> c < it.index@,
        forall|c: u16| c < it.index@ ==> (#[trigger] decoder.mapping@[c])@ == seq![c as u8],
@@before return decoder;
    proof { assert(decoder.dict() =~= singles(256)); }
@@fn DictDecoder::decode ret r
@@spec
    ensures self.mapping@.contains_key(symbol), *r == self.mapping@[symbol],
@@start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
@@rewrite self.mapping .get(&symbol) .unwrap() ==> crate::rt::unwrap_if(Ghost(self.mapping@.contains_key(symbol)), self.mapping.get(&symbol)) -- unwrap of a lookup: must not fail for a code that is known
@@fn DictDecoder::next_symbol ret r
@@spec
    requires old(self).encoded_stream.obeys_prophetic_iter_laws(),
    ensures
        final(self).prev_decoded == old(self).prev_decoded, final(self).mapping == old(self).mapping, final(self).abbrev == old(self).abbrev,
        deser_post(old(self).encoded_stream, final(self).encoded_stream, <u16 as Deserialize>::plen(old(self).encoded_stream.remaining()), r),
        r is Some ==> r->Some_0 as nat == le_val(old(self).encoded_stream.remaining().take(2)),
        r is None ==> old(self).encoded_stream.will_return_none() && final(self).encoded_stream.remaining().len() < 2,
@@fn DictDecoder::store_seq
@@spec
    ensures
        final(self).encoded_stream == old(self).encoded_stream, final(self).mapping == old(self).mapping, final(self).abbrev == old(self).abbrev,
        final(self).prev_decoded.remaining() == seq@, final(self).prev_decoded.obeys_prophetic_iter_laws(),
@@fn DictDecoder::next_code ret r
@@spec
    ensures
        final(self).encoded_stream == old(self).encoded_stream, final(self).mapping == old(self).mapping, final(self).prev_decoded == old(self).prev_decoded,
        old(self).abbrev.counter == u16::MAX ==> r is None && final(self).abbrev == old(self).abbrev,
        old(self).abbrev.counter < u16::MAX ==> r == Some(old(self).abbrev.counter) && final(self).abbrev.counter == old(self).abbrev.counter + 1,
@@fn DictDecoder::new_mapping
@@spec
    ensures
        final(self).encoded_stream == old(self).encoded_stream, final(self).prev_decoded == old(self).prev_decoded, final(self).abbrev == old(self).abbrev,
        final(self).mapping@ == old(self).mapping@.insert(symbol, seq),
@@start
    broadcast use vstd::std_specs::hash::group_hash_axioms;

@@fn <DictDecoder as Iterator>::next ret r
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@start
    proof { crate::rt::class_invariant(self.wf()); }
    let ghost d0 = self.dict();
    let ghost s0 = self.encoded_stream.remaining();
@@before let mut total_seq = seq1.clone();
    proof {
        assert(s0.skip(2).skip(2) =~= s0.skip(4));
        assert(seq1@ == word(d0, symbol1)) by { if symbol1 != ZIP_SPECIAL_EOF { assert(d0[symbol1 as int] == seq1@); } else { assert(seq1@ =~= Seq::<u8>::empty()); } }
        assert(seq2@ == word(d0, symbol2)) by { if symbol2 != ZIP_SPECIAL_EOF { assert(d0[symbol2 as int] == seq2@); } else { assert(seq2@ =~= Seq::<u8>::empty()); } }
    }
@@before self.store_seq(total_seq);
    proof {
        assert(total_seq@ =~= word(d0, symbol1) + word(d0, symbol2));
        assert(self.dict() =~= grown(d0, total_seq@));
    }
@@before self.next()
    // a deeper call has less to do
    proof { assert(self.encoded_stream.remaining().len() < s0.len()); }

@@bottom
/* ---- the format loses nothing ---- */

pub proof fn lemma_pair_bytes_read(p: (u16, u16), rest: Seq<u8>)
    ensures ({
        let s = le_seq(p.0 as nat, 2) + le_seq(p.1 as nat, 2) + rest;
        &&& s.len() >= 4
        &&& le_val(s.take(2)) == p.0 as nat
        &&& le_val(s.skip(2).take(2)) == p.1 as nat
        &&& s.skip(4) == rest
    }),
{
    crate::rt::lemma_pow256();
    crate::rt::lemma_le_roundtrip(p.0 as nat, 2);
    crate::rt::lemma_le_roundtrip(p.1 as nat, 2);
    let a = le_seq(p.0 as nat, 2);
    let b = le_seq(p.1 as nat, 2);
    let s = a + b + rest;
    assert(s.take(2) =~= a);
    assert(s.skip(2).take(2) =~= b);
    assert(s.skip(4) =~= rest);
}

/// pairs a decoder can follow, each standing for something
pub open spec fn good(d: Seq<Seq<u8>>, s: Seq<(u16, u16)>) -> bool
    decreases s.len(),
{
    s.len() > 0 ==> {
        let w = word(d, s[0].0) + word(d, s[0].1);
        valid(d, s[0].0) && valid(d, s[0].1) && w.len() > 0 && good(grown(d, w), s.drop_first())
    }
}

/// what they stand for
pub open spec fn unpack(d: Seq<Seq<u8>>, s: Seq<(u16, u16)>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let w = word(d, s[0].0) + word(d, s[0].1);
        w + unpack(grown(d, w), s.drop_first())
    }
}

/// the dictionary afterwards
pub open spec fn after(d: Seq<Seq<u8>>, s: Seq<(u16, u16)>) -> Seq<Seq<u8>>
    decreases s.len(),
{
    if s.len() == 0 { d } else { after(grown(d, word(d, s[0].0) + word(d, s[0].1)), s.drop_first()) }
}

pub proof fn lemma_good(d: Seq<Seq<u8>>, inp: Seq<u8>)
    requires has_singles(d), dict_wf(d),
    ensures good(d, enc(d, inp)), unpack(d, enc(d, inp)) == inp,
    decreases inp.len(),
{
    let s = enc(d, inp);
    let n1 = longest(d, inp);
    lemma_longest_some(d, inp);
    if inp.len() == 0 {
        assert(inp =~= Seq::<u8>::empty());
    } else {
        let rest = inp.skip(n1 as int);
        let n2 = longest(d, rest);
        lemma_contains_code(d, inp.take(n1 as int));
        if rest.len() == 0 {
            lemma_pair_one(d, inp);
            let w = word(d, s[0].0) + word(d, s[0].1);
            assert(w =~= inp);
            assert(s.drop_first() =~= Seq::<(u16, u16)>::empty());
            assert(good(grown(d, w), s.drop_first()));
            assert(unpack(grown(d, w), s.drop_first()) =~= Seq::<u8>::empty());
            assert(w + Seq::<u8>::empty() =~= inp);
        } else {
            lemma_longest_some(d, rest);
            lemma_contains_code(d, rest.take(n2 as int));
            lemma_pair_two(d, inp, n1, n2);
            let p = (code_of(d, inp.take(n1 as int)), code_of(d, rest.take(n2 as int)));
            let w = word(d, p.0) + word(d, p.1);
            assert(w == inp.take((n1 + n2) as int));
            lemma_grown(d, w);
            let left = rest.skip(n2 as int);
            lemma_good(grown(d, w), left);
            assert(s.drop_first() == enc(grown(d, w), left));
            assert(w + left =~= inp);
        }
    }
}

/// reading pairs, whatever follows them
pub proof fn lemma_sdec_tail(d: Seq<Seq<u8>>, s: Seq<(u16, u16)>, tail: Seq<u8>)
    requires good(d, s),
    ensures sdec(d, pair_bytes(s) + tail) == unpack(d, s) + sdec(after(d, s), tail),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(pair_bytes(s) + tail =~= tail);
        assert(unpack(d, s) + sdec(d, tail) =~= sdec(d, tail));
    } else {
        let w = word(d, s[0].0) + word(d, s[0].1);
        let rest = pair_bytes(s.drop_first()) + tail;
        lemma_pair_bytes_read(s[0], rest);
        assert(pair_bytes(s) + tail =~= le_seq(s[0].0 as nat, 2) + le_seq(s[0].1 as nat, 2) + rest);
        lemma_sdec_tail(grown(d, w), s.drop_first(), tail);
        assert(sdec(d, pair_bytes(s) + tail) == w + sdec(grown(d, w), rest));
        assert(w + (unpack(grown(d, w), s.drop_first()) + sdec(after(d, s), tail)) =~= unpack(d, s) + sdec(after(d, s), tail));
    }
}

/// pairs cut short stand for a part of the bytes, and not for all of them
pub proof fn lemma_sdec_cut(d: Seq<Seq<u8>>, s: Seq<(u16, u16)>, k: int)
    requires good(d, s), 0 <= k < pair_bytes(s).len(),
    ensures
        sdec(d, pair_bytes(s).take(k)).len() < unpack(d, s).len(),
        sdec(d, pair_bytes(s).take(k)) == unpack(d, s).take(sdec(d, pair_bytes(s).take(k)).len() as int),
    decreases s.len(),
{
    if s.len() > 0 {
        let w = word(d, s[0].0) + word(d, s[0].1);
        let rest = pair_bytes(s.drop_first());
        crate::rt::lemma_le_len(s[0].0 as nat, 2);
        crate::rt::lemma_le_len(s[0].1 as nat, 2);
        let t = pair_bytes(s).take(k);
        if k < 4 {
            assert(sdec(d, t) =~= Seq::<u8>::empty());
            assert(unpack(d, s).take(0) =~= Seq::<u8>::empty());
        } else {
            lemma_pair_bytes_read(s[0], rest.take(k - 4));
            assert(t =~= le_seq(s[0].0 as nat, 2) + le_seq(s[0].1 as nat, 2) + rest.take(k - 4));
            assert(sdec(d, t) == w + sdec(grown(d, w), rest.take(k - 4)));
            lemma_sdec_cut(grown(d, w), s.drop_first(), k - 4);
            assert(sdec(d, t) =~= unpack(d, s).take(sdec(d, t).len() as int));
        }
    }
}

pub proof fn lemma_grown(d: Seq<Seq<u8>>, w: Seq<u8>)
    requires has_singles(d), dict_wf(d), !d.contains(w), w.len() > 0,
    ensures has_singles(grown(d, w)), dict_wf(grown(d, w)),
{
    let e = d.push(w);
    if d.len() < 0xffff {
        assert forall|b: int| 0 <= b < 256 implies #[trigger] e[b] == seq![b as u8] by { assert(d[b] == seq![b as u8]); }
        assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by {
            if i == d.len() { assert(d[j] == e[j]); assert(d.contains(d[j])); }
            else if j == d.len() { assert(d[i] == e[i]); assert(d.contains(d[i])); }
            else { assert(d[i] == e[i] && d[j] == e[j]); }
        }
        assert forall|c: int| 0 <= c < e.len() implies (#[trigger] e[c]).len() > 0 by { if c < d.len() { assert(d[c] == e[c]); } }
    }
}

pub proof fn lemma_singles()
    ensures has_singles(singles(256)), dict_wf(singles(256)),
{
    let d = singles(256);
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(d[i][0] == i && d[j][0] == j); }
}

/// what zip_dict_encode writes, zip_dict_decode reads back
pub proof fn theorem_lossless(inp: Seq<u8>)
    ensures sdec(singles(256), pair_bytes(enc(singles(256), inp))) == inp,
{
    theorem_lossless_tail(inp, Seq::empty());
    let b = pair_bytes(enc(singles(256), inp));
    assert(b + Seq::<u8>::empty() =~= b);
    let e = after(singles(256), enc(singles(256), inp));
    assert(sdec(e, Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    assert(inp + Seq::<u8>::empty() =~= inp);
}

/// and so it does when something follows
pub proof fn theorem_lossless_tail(inp: Seq<u8>, tail: Seq<u8>)
    ensures
        sdec(singles(256), pair_bytes(enc(singles(256), inp)) + tail) == inp + sdec(after(singles(256), enc(singles(256), inp)), tail),
{
    lemma_singles();
    lemma_good(singles(256), inp);
    lemma_sdec_tail(singles(256), enc(singles(256), inp), tail);
}

/// a stream cut short gives a proper prefix of the bytes
pub proof fn theorem_truncated(inp: Seq<u8>, k: int)
    requires 0 <= k < pair_bytes(enc(singles(256), inp)).len(),
    ensures ({
        let x = sdec(singles(256), pair_bytes(enc(singles(256), inp)).take(k));
        x.len() < inp.len() && x == inp.take(x.len() as int)
    }),
{
    lemma_singles();
    lemma_good(singles(256), inp);
    lemma_sdec_cut(singles(256), enc(singles(256), inp), k);
}

/// every word of the dictionary is at most as long as its pairs make it, and
/// the output is never longer than two codes for every two bytes
pub proof fn theorem_size(d: Seq<Seq<u8>>, inp: Seq<u8>)
    requires has_singles(d), dict_wf(d),
    ensures pair_bytes(enc(d, inp)).len() <= 2 * inp.len() + 2,
    decreases inp.len(),
{
    let s = enc(d, inp);
    let n1 = longest(d, inp);
    lemma_longest_some(d, inp);
    if inp.len() > 0 {
        let rest = inp.skip(n1 as int);
        let n2 = longest(d, rest);
        lemma_longest_some(d, rest);
        crate::rt::lemma_le_len(s[0].0 as nat, 2);
        crate::rt::lemma_le_len(s[0].1 as nat, 2);
        if rest.len() == 0 {
            lemma_pair_one(d, inp);
            assert(s.drop_first() =~= Seq::<(u16, u16)>::empty());
            assert(pair_bytes(s.drop_first()).len() == 0);
        } else {
            lemma_pair_two(d, inp, n1, n2);
            lemma_grown(d, inp.take((n1 + n2) as int));
            theorem_size(grown(d, inp.take((n1 + n2) as int)), rest.skip(n2 as int));
        }
    }
}
