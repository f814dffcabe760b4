@@module huf src/huf.rs

@@top
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
use crate::bit::{bytes_bits, zeros, pad_len};
use crate::ser::{ser_post, deser_post};

/// the trie's leaves from left to right, each with the path leading to it
pub open spec fn flat<T>(t: BinTrie<T>) -> Seq<(Seq<Bit>, T)>
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => seq![(Seq::<Bit>::empty(), v)],
        BinTrie::Branch(l, r) => below(seq![Bit::Zero], flat(*l)) + below(seq![Bit::One], flat(*r)),
    }
}

/// every path extended at the front
pub open spec fn below<T>(p: Seq<Bit>, s: Seq<(Seq<Bit>, T)>) -> Seq<(Seq<Bit>, T)> {
    Seq::new(s.len(), |i: int| (p + s[i].0, s[i].1))
}

/// what walking down from the root along `bits` finds, and the bits left over
pub open spec fn look<T>(t: BinTrie<T>, bits: Seq<Bit>) -> Option<(T, Seq<Bit>)>
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => Some((v, bits)),
        BinTrie::Branch(l, r) => if bits.len() == 0 { None }
            else if bits[0] == Bit::Zero { look(*l, bits.drop_first()) }
            else { look(*r, bits.drop_first()) },
    }
}

/// whatever follows a code word, walking down along it finds its symbol and
/// stops exactly behind it
pub proof fn lemma_look<T>(t: BinTrie<T>, i: int, rest: Seq<Bit>)
    requires 0 <= i < flat(t).len(),
    ensures look(t, flat(t)[i].0 + rest) == Some((flat(t)[i].1, rest)),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { assert(flat(t)[i].0 + rest =~= rest); }
        BinTrie::Branch(l, r) => {
            let n = flat(*l).len() as int;
            let (b, c, j) = if i < n { (Bit::Zero, *l, i) } else { (Bit::One, *r, i - n) };
            lemma_look(c, j, rest);
            let bits = flat(t)[i].0 + rest;
            assert(flat(t)[i].0 == seq![b] + flat(c)[j].0);
            assert(bits[0] == b);
            assert(bits.drop_first() =~= flat(c)[j].0 + rest);
        }
    }
}

pub open spec fn is_prefix(a: Seq<Bit>, b: Seq<Bit>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a
}

/// no code word is a prefix of another
pub proof fn lemma_prefix_free<T>(t: BinTrie<T>, i: int, j: int)
    requires 0 <= i < flat(t).len(), 0 <= j < flat(t).len(), i != j,
    ensures !is_prefix(flat(t)[i].0, flat(t)[j].0),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { }
        BinTrie::Branch(l, r) => {
            let n = flat(*l).len() as int;
            let (a, b) = (flat(t)[i].0, flat(t)[j].0);
            let (bi, ci, ki) = if i < n { (Bit::Zero, *l, i) } else { (Bit::One, *r, i - n) };
            let (bj, cj, kj) = if j < n { (Bit::Zero, *l, j) } else { (Bit::One, *r, j - n) };
            assert(a == seq![bi] + flat(ci)[ki].0);
            assert(b == seq![bj] + flat(cj)[kj].0);
            assert(a[0] == bi && b[0] == bj);
            if is_prefix(a, b) {
                assert(b.take(a.len() as int)[0] == a[0]);
                lemma_prefix_free(ci, ki, kj);
                let (a1, b1) = (flat(ci)[ki].0, flat(cj)[kj].0);
                assert(b1.take(a1.len() as int) =~= a1) by {
                    assert forall|k: int| 0 <= k < a1.len() implies b1[k] == a1[k] by {
                        assert(b.take(a.len() as int)[k + 1] == a[k + 1]);
                    }
                }
            }
        }
    }
}

/// cloning gives an equal value
pub open spec fn clone_is_eq<T: Clone>() -> bool {
    forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b
}

/// the symbols decoded from a sequence of bits
pub open spec fn dec_all<T>(t: BinTrie<T>, bits: Seq<Bit>) -> Seq<T>
    decreases bits.len(),
{
    match look(t, bits) {
        None => Seq::empty(),
        Some((v, rest)) => if rest.len() < bits.len() { seq![v] + dec_all(t, rest) } else { Seq::empty() },
    }
}

pub proof fn lemma_look_len<T>(t: BinTrie<T>, bits: Seq<Bit>)
    ensures look(t, bits) is Some ==> look(t, bits)->Some_0.1.len() <= bits.len() && (t is Branch ==> look(t, bits)->Some_0.1.len() < bits.len()),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { }
        BinTrie::Branch(l, r) => {
            if bits.len() > 0 { lemma_look_len(*l, bits.drop_first()); lemma_look_len(*r, bits.drop_first()); }
        }
    }
}

/// decoding one symbol
pub proof fn lemma_dec_step<T>(t: BinTrie<T>, b: Seq<Bit>)
    requires t is Branch,
    ensures
        look(t, b) is Some ==> look(t, b)->Some_0.1.len() < b.len() && dec_all(t, b) == seq![look(t, b)->Some_0.0] + dec_all(t, look(t, b)->Some_0.1)
            && dec_all(t, b).drop_first() == dec_all(t, look(t, b)->Some_0.1),
        look(t, b) is None ==> dec_all(t, b).len() == 0,
        dec_all(t, Seq::empty()).len() == 0,
{
    lemma_look_len(t, b);
    if look(t, b) is Some {
        assert(dec_all(t, b).drop_first() =~= dec_all(t, look(t, b)->Some_0.1));
    }
}

@@attr BinTrie :: #[verifier::reject_recursive_types_in_ground_variants(T)]

@@fn BinTrie::leaf ret r
@@spec
    ensures r == BinTrie::Leaf(value),

@@fn BinTrie::compose ret r
@@spec
    ensures r == BinTrie::Branch(left, right),

@@fn BinTrie::lookup ret r
@@spec
    ensures
        (*final(input)).obeys_prophetic_iter_laws() == old(input).obeys_prophetic_iter_laws(),
        old(input).obeys_prophetic_iter_laws() ==> (*final(input)).will_return_none() == old(input).will_return_none()
        && match look(*self, old(input).remaining()) {
            Some((v, rest)) => r is Some && *r->Some_0 == v && (*final(input)).remaining() == rest,
            None => r is None && (*final(input)).remaining().len() == 0 && old(input).will_return_none(),
        },
@@loop 0
    invariant
        (*input).obeys_prophetic_iter_laws() == old(input).obeys_prophetic_iter_laws(),
        old(input).obeys_prophetic_iter_laws() ==> (*input).will_return_none() == old(input).will_return_none()
        && look(*curr_node, (*input).remaining()) == look(*self, old(input).remaining()),
    decreases *curr_node,

@@# the trie's iterator

@@fn BinTrie::iter ret r
@@spec
    ensures r.wf(), todo(r.stack@, r.curr_rep@) == flat(*self),

@@top
/// the stack holds the nodes from the root down, the path the turns taken
pub open spec fn chain<T>(stack: Seq<&BinTrie<T>>, rep: Seq<Bit>) -> bool {
    &&& stack.len() == rep.len() + 1
    &&& forall|i: int| 0 <= i < rep.len() ==> #[trigger] child(*stack[i], rep[i]) == Some(*stack[i + 1])
}

pub open spec fn child<T>(t: BinTrie<T>, b: Bit) -> Option<BinTrie<T>> {
    match t {
        BinTrie::Leaf(_) => None,
        BinTrie::Branch(l, r) => if b == Bit::Zero { Some(*l) } else { Some(*r) },
    }
}

/// the leaves to the right of the last node of the stack
pub open spec fn up<T>(stack: Seq<&BinTrie<T>>, rep: Seq<Bit>) -> Seq<(Seq<Bit>, T)>
    decreases rep.len(),
{
    if rep.len() == 0 || stack.len() < 2 { Seq::empty() } else {
        let p = rep.drop_last();
        if rep.last() == Bit::Zero {
            below(p.push(Bit::One), flat(child(*stack[stack.len() - 2], Bit::One)->Some_0)) + up(stack.drop_last(), p)
        } else {
            up(stack.drop_last(), p)
        }
    }
}

/// the leaves from the last node of the stack on
pub open spec fn todo<T>(stack: Seq<&BinTrie<T>>, rep: Seq<Bit>) -> Seq<(Seq<Bit>, T)> {
    if stack.len() == 0 { Seq::empty() } else { below(rep, flat(*stack.last())) + up(stack, rep) }
}

pub proof fn lemma_below_twice<T>(p: Seq<Bit>, b: Bit, s: Seq<(Seq<Bit>, T)>)
    ensures below(p, below(seq![b], s)) =~= below(p.push(b), s),
{
    assert forall|i: int| 0 <= i < s.len() implies below(p, below(seq![b], s))[i] == below(p.push(b), s)[i] by {
        assert(p + (seq![b] + s[i].0) =~= p.push(b) + s[i].0);
    }
}

pub proof fn lemma_below_add<T>(p: Seq<Bit>, s: Seq<(Seq<Bit>, T)>, t: Seq<(Seq<Bit>, T)>)
    ensures below(p, s + t) =~= below(p, s) + below(p, t),
{
}

/// what is to the right of node n + 1 of the chain
pub proof fn lemma_up<T>(stack: Seq<&BinTrie<T>>, rep: Seq<Bit>, n: int)
    requires chain(stack, rep), 0 <= n < rep.len(),
    ensures
        rep[n] == Bit::One ==> up(stack.take(n + 2), rep.take(n + 1)) == up(stack.take(n + 1), rep.take(n)),
        rep[n] == Bit::Zero ==> up(stack.take(n + 2), rep.take(n + 1)) == below(rep.take(n).push(Bit::One), flat(child(*stack[n], Bit::One)->Some_0))
            + up(stack.take(n + 1), rep.take(n)),
        stack.take(n + 1).last() == stack[n], stack[n] is Branch,
{
    assert(stack.take(n + 2).drop_last() =~= stack.take(n + 1));
    assert(rep.take(n + 1).drop_last() =~= rep.take(n));
    assert(child(*stack[n], rep[n]) == Some(*stack[n + 1]));
}

/// one step down
pub proof fn lemma_down<T>(stack: Seq<&BinTrie<T>>, rep: Seq<Bit>, b: Bit, c: &BinTrie<T>)
    requires stack.len() > 0, chain(stack, rep), child(*stack.last(), b) == Some(*c),
    ensures
        chain(stack.push(c), rep.push(b)),
        b == Bit::Zero ==> todo(stack.push(c), rep.push(b)) == todo(stack, rep),
        b == Bit::One ==> todo(stack.push(c), rep.push(b)) == below(rep.push(b), flat(*c)) + up(stack, rep),
{
    let (s2, r2) = (stack.push(c), rep.push(b));
    assert(s2.drop_last() =~= stack);
    assert(r2.drop_last() =~= rep);
    assert(s2[s2.len() - 2] == stack.last());
    assert forall|i: int| 0 <= i < r2.len() implies #[trigger] child(*s2[i], r2[i]) == Some(*s2[i + 1]) by {
        if i < rep.len() { assert(child(*stack[i], rep[i]) == Some(*stack[i + 1])); }
    }
    if b == Bit::Zero {
        let l = child(*stack.last(), Bit::Zero)->Some_0;
        let r = child(*stack.last(), Bit::One)->Some_0;
        lemma_below_add(rep, below(seq![Bit::Zero], flat(l)), below(seq![Bit::One], flat(r)));
        lemma_below_twice(rep, Bit::Zero, flat(l));
        lemma_below_twice(rep, Bit::One, flat(r));
        assert(todo(s2, r2) =~= todo(stack, rep));
    }
}

impl<'a, T> vstd::std_specs::iter::IteratorSpecImpl for BinTrieIter<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<(Vec<Bit>, &'a T)> { Seq::empty() }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<(Vec<Bit>, &'a T)> { None }
}

impl<T: std::hash::Hash + Eq + Clone> vstd::std_specs::convert::FromSpecImpl<&Dec<T>> for Enc<T> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: &Dec<T>) -> Self { arbitrary() }
}

impl<'a, T> BinTrieIter<'a, T> {
    pub open spec fn wf(&self) -> bool {
        if self.stack@.len() == 0 { self.curr_rep@.len() == 0 }
        else { chain(self.stack@, self.curr_rep@) && self.stack@.last() is Leaf }
    }
}

@@fn <BinTrieIter as Iterator>::next ret r
@@spec
    ensures
        old(self).wf() ==> final(self).wf() && match r {
            None => todo(old(self).stack@, old(self).curr_rep@).len() == 0 && final(self).stack@ == old(self).stack@ && final(self).curr_rep@ == old(self).curr_rep@,
            Some((p, v)) => {
                let s = todo(old(self).stack@, old(self).curr_rep@);
                s.len() > 0 && s[0] == (p@, *v) && todo(final(self).stack@, final(self).curr_rep@) == s.drop_first()
            },
        },
@@start
    proof { crate::rt::class_invariant(self.wf()); }
@@before return Some((rep, sym));
    proof {
        let s0 = old(self).stack@;
        let r0 = old(self).curr_rep@;
        let s = todo(s0, r0);
        assert(rep@ =~= r0);
        assert(below(r0, flat(*s0.last())) =~= seq![(r0, *sym)]) by { assert(r0 + Seq::<Bit>::empty() =~= r0); }
        assert(s.drop_first() =~= up(s0, r0));
        assert(todo(self.stack@, self.curr_rep@) =~= s.drop_first());
    }

@@fn BinTrieIter::new ret r
@@spec
    ensures r.wf(), todo(r.stack@, r.curr_rep@) == flat(*trie),
@@before return bti;
    proof {
        assert forall|i: int| 0 <= i < flat(*trie).len() implies Seq::<Bit>::empty() + (#[trigger] flat(*trie)[i]).0 == flat(*trie)[i].0 by {
            assert(Seq::<Bit>::empty() + flat(*trie)[i].0 =~= flat(*trie)[i].0);
        }
        assert(below(Seq::<Bit>::empty(), flat(*trie)) =~= flat(*trie));
        assert(todo(bti.stack@, bti.curr_rep@) =~= flat(*trie));
    }
@@fn BinTrieIter::is_over ret r
@@spec
    ensures r == (self.stack@.len() == 0),
@@fn BinTrieIter::all_the_way_left
@@spec
    requires old(self).stack@.len() > 0, chain(old(self).stack@, old(self).curr_rep@),
    ensures
        final(self).stack@.len() > 0, final(self).wf(),
        todo(final(self).stack@, final(self).curr_rep@) == todo(old(self).stack@, old(self).curr_rep@),
@@loop 0
    invariant
        self.stack@.len() > 0, chain(self.stack@, self.curr_rep@), curr_node == self.stack@.last(),
        todo(self.stack@, self.curr_rep@) == todo(old(self).stack@, old(self).curr_rep@),
    ensures curr_node is Leaf,
    decreases *curr_node,
@@bodystart 0
    let ghost s0 = self.stack@;
    let ghost r0 = self.curr_rep@;
@@bodyend 0
    proof {
        lemma_down(s0, r0, Bit::Zero, curr_node);
        assert(self.stack@ =~= s0.push(curr_node));
        assert(self.curr_rep@ =~= r0.push(Bit::Zero));
    }
@@fn BinTrieIter::right_once
@@spec
    requires old(self).stack@.len() > 0, chain(old(self).stack@, old(self).curr_rep@), old(self).stack@.last() is Branch,
    ensures
        final(self).stack@.len() > 0, chain(final(self).stack@, final(self).curr_rep@),
        todo(final(self).stack@, final(self).curr_rep@) == below(old(self).curr_rep@.push(Bit::One),
            flat(child(*old(self).stack@.last(), Bit::One)->Some_0)) + up(old(self).stack@, old(self).curr_rep@),
@@after self.curr_rep.push(Bit::One);
    proof { lemma_down(old(self).stack@, old(self).curr_rep@, Bit::One, right); }
@@fn BinTrieIter::pop_parents
@@spec
    requires old(self).stack@.len() > 0, chain(old(self).stack@, old(self).curr_rep@),
    ensures
        final(self).stack@.len() == 0 ==> final(self).curr_rep@.len() == 0 && up(old(self).stack@, old(self).curr_rep@).len() == 0,
        final(self).stack@.len() > 0 ==> chain(final(self).stack@, final(self).curr_rep@) && final(self).stack@.last() is Branch
            && up(old(self).stack@, old(self).curr_rep@) == below(final(self).curr_rep@.push(Bit::One),
                flat(child(*final(self).stack@.last(), Bit::One)->Some_0)) + up(final(self).stack@, final(self).curr_rep@),
@@loop 0
    invariant
        stack0 == old(self).stack@, rep0 == old(self).curr_rep@, chain(stack0, rep0),
        match prev_dir {
            None => self.stack@.len() == 0 && self.curr_rep@.len() == 0 && up(stack0, rep0).len() == 0,
            Some(d) => {
                let n = self.curr_rep@.len() as int;
                n < rep0.len() && d == rep0[n] && self.curr_rep@ == rep0.take(n) && self.stack@ == stack0.take(n + 1)
                && up(stack0, rep0) == up(stack0.take(n + 2), rep0.take(n + 1))
            },
        },
    ensures prev_dir != Some(Bit::One),
    decreases self.stack@.len(),
@@start
    let ghost stack0 = self.stack@;
    let ghost rep0 = self.curr_rep@;
    proof { assert(stack0.take(stack0.len() as int) =~= stack0); assert(rep0.take(rep0.len() as int) =~= rep0); }
@@bodystart 0
    proof {
        let n = self.curr_rep@.len() as int;
        lemma_up(stack0, rep0, n);
    }
@@finish
    proof {
        let n = self.curr_rep@.len() as int;
        if prev_dir is Some { lemma_up(stack0, rep0, n); assert(child(*stack0[n], rep0[n]) == Some(*stack0[n + 1])); }
    }

@@# the code table

@@top
/// the code of every symbol, as the trie has it
pub open spec fn table_of<T>(m: Map<T, crate::bit::BitArray>, s: Seq<(Seq<Bit>, T)>) -> bool {
    &&& forall|x: T| #[trigger] m.contains_key(x) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == x
    &&& forall|x: T| m.contains_key(x) ==> m[x].wf() && m[x].bit_order == BIT_ORDER
            && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (m[x]@, x)
}

@@fn <Enc as From<&Dec<T>>>::from ret r
@@spec
    ensures
        vstd::std_specs::hash::obeys_key_model::<T>() && clone_is_eq::<T>() ==> table_of(r.codes@, flat(enc.trie)),
@@forwhile 0 rest
@@start
    let ghost all = flat(enc.trie);
    let ghost mut done: int = 0;
    proof { assert(all.skip(0) =~= all); }
@@loop 0
    invariant
        all == flat(enc.trie), 0 <= done <= all.len(), rest.wf(), todo(rest.stack@, rest.curr_rep@) == all.skip(done),
        vstd::std_specs::hash::obeys_key_model::<T>() && clone_is_eq::<T>() ==> table_of(codes@, all.take(done)),
    ensures done == all.len(),
    decreases all.len() - done,
@@bodyend 0
    proof {
        assert(all.skip(done).drop_first() =~= all.skip(done + 1));
        assert(all.skip(done)[0] == all[done]);
        assert(all.take(done + 1)[done] == all[done]);
        assert(all.take(done) =~= all.take(done + 1).drop_last());
        assert forall|i: int| 0 <= i < done implies all.take(done)[i] == #[trigger] all.take(done + 1)[i] by { }
        done = done + 1;
    }
@@before Enc {
    proof { assert(all.take(all.len() as int) =~= all); }
@@rewrite &bits as &[Bit] ==> bits.as_slice() -- the same borrow, written without a cast

@@fn Enc::encode ret r
@@spec
    requires
        old(writer).wf(), vstd::std_specs::hash::obeys_key_model::<T>(), self.codes@.contains_key(*symbol),
        self.codes@[*symbol].wf(), self.codes@[*symbol].bit_order == old(writer).order(),
    ensures
        r is Ok ==> final(writer).wf() && final(writer).order() == old(writer).order() && final(writer).fut() == old(writer).fut()
                && final(writer).bits() == old(writer).bits() + self.codes@[*symbol]@,
        old(writer).sure() ==> r is Ok && final(writer).sure(),
@@before return Ok(());
    proof { assert(old(writer).bits() + self.codes@[*symbol]@ =~= old(writer).bits()); }
@@rewrite self.codes.get(symbol).ok_or_else( ==> crate::rt::ok_or_else(self.codes.get(symbol), -- Option::ok_or_else through a verified equivalent
@@rewrite || io::Error::new(io::ErrorKind::InvalidInput, "Symbol without a code") ==> || crate::rt::some_io_error() -- what the error says is left out

@@fn Dec::decode ret r
@@spec
    ensures
        (*final(input)).obeys_prophetic_iter_laws() == old(input).obeys_prophetic_iter_laws(),
        old(input).obeys_prophetic_iter_laws() ==> (*final(input)).will_return_none() == old(input).will_return_none()
        && match look(self.trie, old(input).remaining()) {
            Some((v, rest)) => r is Some && *r->Some_0 == v && (*final(input)).remaining() == rest,
            None => r is None && (*final(input)).remaining().len() == 0 && old(input).will_return_none(),
        },

@@# the byte form of a trie

@@top
pub open spec fn trie_ser<T: Serialize>(t: BinTrie<T>) -> Seq<u8>
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => seq![SER_ENUM_LEAF] + v.ser(),
        BinTrie::Branch(l, r) => seq![SER_ENUM_BRANCH] + trie_ser(*l) + trie_ser(*r),
    }
}

pub open spec fn trie_ser_ok<T: Serialize>(t: BinTrie<T>) -> bool
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => v.ser_ok(),
        BinTrie::Branch(l, r) => trie_ser_ok(*l) && trie_ser_ok(*r),
    }
}

pub open spec fn trie_plen<T: Deserialize>(s: Seq<u8>) -> Option<nat>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s[0] == SER_ENUM_LEAF {
        match T::plen(s.skip(1)) { None => None, Some(n) => Some(n + 1) }
    } else if s[0] == SER_ENUM_BRANCH {
        match trie_plen::<T>(s.skip(1)) {
            None => None,
            Some(a) => if a > s.len() - 1 { None } else {
                match trie_plen::<T>(s.skip(1).skip(a as int)) { None => None, Some(b) => Some(1 + a + b) }
            },
        }
    } else { None }
}

/// the bits behind the trie
pub open spec fn payload<T: Deserialize>(s: Seq<u8>) -> Seq<Bit> {
    bytes_bits(s.skip(trie_plen::<T>(s)->Some_0 as int), crate::bit::BitOrder::MsbFirst)
}

pub open spec fn trie_pval<T: Deserialize>(s: Seq<u8>, t: BinTrie<T>) -> bool
    decreases t,
{
    s.len() > 0 && match t {
        BinTrie::Leaf(v) => s[0] == SER_ENUM_LEAF && T::pval(s.skip(1), v),
        BinTrie::Branch(l, r) => s[0] == SER_ENUM_BRANCH && trie_pval(s.skip(1), *l) && trie_plen::<T>(s.skip(1)) is Some
            && trie_pval(s.skip(1).skip(trie_plen::<T>(s.skip(1))->Some_0 as int), *r),
    }
}

@@inside <BinTrie as Serialize>
    open spec fn ser(&self) -> Seq<u8> { trie_ser(*self) }
    open spec fn ser_ok(&self) -> bool { trie_ser_ok(*self) }
@@inside <BinTrie as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { trie_plen::<T>(s) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { trie_pval(s, v) }
@@inside <Dec as Serialize>
    open spec fn ser(&self) -> Seq<u8> { trie_ser(self.trie) }
    open spec fn ser_ok(&self) -> bool { trie_ser_ok(self.trie) }
@@inside <Dec as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { trie_plen::<T>(s) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { trie_pval(s, v.trie) }
@@fn <Dec as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }

@@fn <BinTrie as Serialize>::serialize
@@spec
    decreases self,
@@start
    broadcast use crate::rt::lemma_seq_assoc;
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }

@@fn <Dec as Deserialize>::deserialize
@@rewrite |trie| Dec { trie } ==> |trie: BinTrie<T>| -> (d: Dec<T>) ensures d.trie == trie { Dec { trie } } -- closure given its contract
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }

@@fn <BinTrie as Deserialize>::deserialize
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@before let left
    // a deeper call has less to do
    proof { assert(stream.remaining().len() < old(stream).remaining().len()); }
@@before let right
    // a deeper call has less to do
    proof { assert(stream.remaining().len() < old(stream).remaining().len()); }
@@before Some(BinTrie::Leaf(value))
    proof {
        let s = old(stream).remaining();
        let n = T::plen(s.skip(1))->Some_0;
        assert(stream.remaining() =~= s.skip((n + 1) as int));
    }
@@before Some(BinTrie::Branch
    proof {
        let s = old(stream).remaining();
        let n = trie_plen::<T>(s.skip(1))->Some_0;
        let m = trie_plen::<T>(s.skip(1).skip(n as int))->Some_0;
        assert(stream.remaining() =~= s.skip((1 + n + m) as int));
    }

@@# decoding
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }

@@top
impl<I: Iterator<Item = Bit>, T: Clone> vstd::std_specs::iter::IteratorSpecImpl for DecStream<I, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.bits.obeys_prophetic_iter_laws() && self.dec.trie is Branch && clone_is_eq::<T>() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<T> { dec_all(self.dec.trie, self.bits.remaining()) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.bits.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<T> { None }
}

@@fn DecStream::new ret r
@@spec
    ensures r.dec == dec, r.bits == bits,
@@fn <DecStream as Iterator>::next ret r
@@spec
    ensures
        final(self).dec == old(self).dec,
        old(self).bits.obeys_prophetic_iter_laws() ==> final(self).bits.obeys_prophetic_iter_laws(),
        old(self).bits.obeys_prophetic_iter_laws() && clone_is_eq::<T>() && old(self).dec.trie is Leaf ==> r == Some(old(self).dec.trie->Leaf_0),
@@start
    proof { if self.dec.trie is Branch { lemma_dec_step(self.dec.trie, self.bits.remaining()); } }

@@top
pub open spec fn rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal }
}
/// comparing the other way round gives the opposite
pub open spec fn turns<N: Ord>() -> bool { forall|a: N, b: N| #[trigger] a.cmp_spec(&b) == rev(b.cmp_spec(&a)) }
pub open spec fn turns_partial<N: PartialOrd>() -> bool {
    forall|a: N, b: N| #[trigger] a.partial_cmp_spec(&b) == (match b.partial_cmp_spec(&a) { Some(x) => Some(rev(x)), None => None })
}
impl<T, N: PartialEq> vstd::std_specs::cmp::PartialEqSpecImpl for Suffix<T, N> {
    open spec fn obeys_eq_spec() -> bool { N::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.freq.eq_spec(&o.freq) }
}
impl<T, N: PartialOrd> vstd::std_specs::cmp::PartialOrdSpecImpl for Suffix<T, N> {
    open spec fn obeys_partial_cmp_spec() -> bool { N::obeys_partial_cmp_spec() && turns_partial::<N>() }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { match self.freq.partial_cmp_spec(&o.freq) { Some(x) => Some(rev(x)), None => None } }
}
impl<T, N: Ord> vstd::std_specs::cmp::OrdSpecImpl for Suffix<T, N> {
    open spec fn obeys_cmp_spec() -> bool { N::obeys_cmp_spec() && turns::<N>() }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { rev(self.freq.cmp_spec(&o.freq)) }
}
impl<T, N> vstd::std_specs::convert::FromSpecImpl<(T, N)> for Suffix<T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (T, N)) -> Self { Suffix { freq: v.1, tree: BinTrie::Leaf(v.0) } }
}

@@# building and encoding

@@top
use crate::huffman::{sum, merged, second, lower_bound, lemma_sum_remove, lemma_sum_push, lemma_sum_zero, lemma_only_one, lemma_huffman_step, lemma_sum_zip};

/// how often the trie has x
pub open spec fn leaves<T>(t: BinTrie<T>, x: T) -> nat
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => if v == x { 1 } else { 0 },
        BinTrie::Branch(l, r) => leaves(*l, x) + leaves(*r, x),
    }
}

/// the total frequency of a trie's symbols
pub open spec fn weight<T>(t: BinTrie<T>, fr: spec_fn(T) -> nat) -> nat
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => fr(v),
        BinTrie::Branch(l, r) => weight(*l, fr) + weight(*r, fr),
    }
}

/// what coding with the trie costs: every symbol's frequency times its depth
pub open spec fn cost<T>(t: BinTrie<T>, fr: spec_fn(T) -> nat) -> nat
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => 0,
        BinTrie::Branch(l, r) => cost(*l, fr) + cost(*r, fr) + weight(*l, fr) + weight(*r, fr),
    }
}

pub open spec fn weights<T>(h: Seq<Suffix<T, u64>>) -> Seq<nat> { Seq::new(h.len(), |i: int| h[i].freq as nat) }
pub open spec fn costs<T>(h: Seq<Suffix<T, u64>>, fr: spec_fn(T) -> nat) -> Seq<nat> { Seq::new(h.len(), |i: int| cost(h[i].tree, fr)) }
pub open spec fn all_leaves<T>(h: Seq<Suffix<T, u64>>, x: T) -> Seq<nat> { Seq::new(h.len(), |i: int| leaves(h[i].tree, x)) }

pub open spec fn has_key<T>(items: Seq<(T, u64)>, x: T) -> bool {
    exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == x
}
pub open spec fn freq_in<T>(items: Seq<(T, u64)>, x: T) -> nat {
    if has_key(items, x) { items[choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == x].1 as nat } else { 0 }
}
pub open spec fn distinct<T>(items: Seq<(T, u64)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0 != (#[trigger] items[j]).0
}
pub open spec fn freqs_of<T>(items: Seq<(T, u64)>) -> Seq<nat> { Seq::new(items.len(), |i: int| items[i].1 as nat) }

/// what holds of the heap of tries all along
pub open spec fn forest<T>(h: Seq<Suffix<T, u64>>, items: Seq<(T, u64)>) -> bool {
    let fr = |x: T| freq_in(items, x);
    &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).freq == weight(h[i].tree, fr)
    &&& forall|x: T| sum(#[trigger] all_leaves(h, x)) == if has_key(items, x) { 1nat } else { 0nat }
    &&& sum(weights(h)) == sum(freqs_of(items))
    &&& forall|c: nat| #[trigger] lower_bound(weights(h), c) ==> lower_bound(freqs_of(items), c + sum(costs(h, fr)))
}

pub proof fn lemma_forest_start<T>(h: Seq<Suffix<T, u64>>, items: Seq<(T, u64)>)
    requires
        distinct(items), h.len() == items.len(),
        forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] == (Suffix { freq: items[i].1, tree: BinTrie::Leaf(items[i].0) }),
    ensures forest(h, items),
{
    let fr = |x: T| freq_in(items, x);
    assert(weights(h) =~= freqs_of(items));
    lemma_sum_zero(costs(h, fr));
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).freq == weight(h[i].tree, fr) by {
        let x = items[i].0;
        assert(has_key(items, x));
        let j = choose|j: int| 0 <= j < items.len() && (#[trigger] items[j]).0 == x;
        assert(i == j) by { if i < j { assert(items[i].0 != items[j].0); } else if j < i { assert(items[j].0 != items[i].0); } }
    }
    assert forall|x: T| sum(#[trigger] all_leaves(h, x)) == if has_key(items, x) { 1nat } else { 0nat } by {
        let s = all_leaves(h, x);
        if has_key(items, x) {
            let k = choose|j: int| 0 <= j < items.len() && (#[trigger] items[j]).0 == x;
            assert(h[k].tree == BinTrie::Leaf(items[k].0));
            assert forall|i: int| 0 <= i < s.len() && i != k implies #[trigger] s[i] == 0 by {
                assert(h[i].tree == BinTrie::Leaf(items[i].0));
                if i < k { assert(items[i].0 != items[k].0); } else { assert(items[k].0 != items[i].0); }
            }
            lemma_only_one(s, k);
        } else {
            assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by {
                assert(h[i].tree == BinTrie::Leaf(items[i].0));
                assert(items[i].0 != x);
            }
            lemma_sum_zero(s);
        }
    }
}

pub proof fn lemma_sum_merged(s: Seq<nat>, i: int, j: int, x: nat)
    requires 0 <= i < s.len(), 0 <= j < s.len() - 1,
    ensures sum(merged(s, i, j, x)) + s[i] + s[second(i, j)] == sum(s) + x,
{
    lemma_sum_remove(s, i);
    lemma_sum_remove(s.remove(i), j);
    assert(s.remove(i)[j] == s[second(i, j)]);
    lemma_sum_push(s.remove(i).remove(j), x);
}

#[verifier::rlimit(60)]
pub proof fn lemma_forest_step<T>(h: Seq<Suffix<T, u64>>, items: Seq<(T, u64)>, i: int, j: int, n: Suffix<T, u64>)
    requires
        forest(h, items), popped(h, i, h.remove(i), h[i]), popped(h.remove(i), j, h.remove(i).remove(j), h.remove(i)[j]),
        n.tree == BinTrie::Branch(Box::new(h[i].tree), Box::new(h[second(i, j)].tree))
            || n.tree == BinTrie::Branch(Box::new(h[second(i, j)].tree), Box::new(h[i].tree)),
        n.freq == h[i].freq + h[second(i, j)].freq,
    ensures forest(h.remove(i).remove(j).push(n), items),
{
    let fr = |x: T| freq_in(items, x);
    let h2 = h.remove(i).remove(j).push(n);
    let j2 = second(i, j);
    let ws = weights(h);
    assert(h.remove(i)[j] == h[j2]);
    assert(weights(h2) =~= merged(ws, i, j, ws[i] + ws[j2]));
    lemma_sum_merged(ws, i, j, ws[i] + ws[j2]);
    assert(costs(h2, fr) =~= merged(costs(h, fr), i, j, cost(n.tree, fr)));
    lemma_sum_merged(costs(h, fr), i, j, cost(n.tree, fr));
    assert(h[i].freq == weight(h[i].tree, fr) && h[j2].freq == weight(h[j2].tree, fr));
    assert forall|x: T| sum(#[trigger] all_leaves(h2, x)) == sum(all_leaves(h, x)) by {
        assert(all_leaves(h2, x) =~= merged(all_leaves(h, x), i, j, leaves(n.tree, x)));
        lemma_sum_merged(all_leaves(h, x), i, j, leaves(n.tree, x));
    }
    assert forall|k: int| 0 <= k < h2.len() implies (#[trigger] h2[k]).freq == weight(h2[k].tree, fr) by {
        if k < h2.len() - 1 {
            let k1 = if k < j { k } else { k + 1 };
            let k2 = if k1 < i { k1 } else { k1 + 1 };
            assert(h2[k] == h[k2]);
        }
    }
    assert forall|k: int| 0 <= k < ws.len() implies ws[i] <= #[trigger] ws[k] by { assert(h[k].cmp_spec(&h[i]) != Ordering::Greater); }
    assert forall|k: int| 0 <= k < ws.len() && k != i implies ws[j2] <= #[trigger] ws[k] by {
        let k1 = if k < i { k } else { k - 1 };
        assert(h.remove(i)[k1] == h[k]);
        assert(h.remove(i)[k1].cmp_spec(&h[j2]) != Ordering::Greater);
    }
    assert forall|c: nat| #[trigger] lower_bound(weights(h2), c) implies lower_bound(freqs_of(items), c + sum(costs(h2, fr))) by {
        lemma_huffman_step(ws, i, j, c);
        assert(c + ws[i] + ws[j2] + sum(costs(h, fr)) == c + sum(costs(h2, fr)));
    }
}

/// at the end a single trie is left, and its cost is the best possible
pub proof fn lemma_forest_end<T>(h: Seq<Suffix<T, u64>>, items: Seq<(T, u64)>)
    requires forest(h, items), h.len() == 1,
    ensures best_trie(h[0].tree, items),
{
    let fr = |x: T| freq_in(items, x);
    assert(lower_bound(weights(h), 0));
    lemma_only_one(costs(h, fr), 0);
    assert forall|x: T| #[trigger] leaves(h[0].tree, x) == if has_key(items, x) { 1nat } else { 0nat } by {
        lemma_only_one(all_leaves(h, x), 0);
    }
}

/// a trie with one leaf per symbol, whose cost no choice of code lengths that
/// Kraft's inequality allows can beat
pub open spec fn best_trie<T>(t: BinTrie<T>, items: Seq<(T, u64)>) -> bool {
    &&& forall|x: T| #[trigger] leaves(t, x) == if has_key(items, x) { 1nat } else { 0nat }
    &&& lower_bound(freqs_of(items), cost(t, |x: T| freq_in(items, x)))
}

@@fn build ret r
@@spec
    requires
        freq_items.obeys_prophetic_iter_laws(), freq_items.remaining().len() > 0, distinct(freq_items.remaining()),
        sum(freqs_of(freq_items.remaining())) <= u64::MAX,
    ensures
        best_trie(r.1.trie, freq_items.remaining()),
        vstd::std_specs::hash::obeys_key_model::<T>() && clone_is_eq::<T>() ==> table_of(r.0.codes@, flat(r.1.trie)),
@@rewrite fn build<I, T, N>( ==> fn build<I, T>( -- the only instance, N = u64
@@rewrite Item = (T, N) ==> Item = (T, u64) -- the only instance, N = u64
@@rewrite Hash + Clone, N: Add<Output = N> + Ord ==> Hash + Clone -- the only instance, N = u64
@@rewrite BinaryHeap::from_iter( freq_items.map(Suffix::from)) ==> crate::rt::Heap::from_iter_map(freq_items, |x: (T, u64)| -> (s: Suffix<T, u64>) ensures s == (Suffix { freq: x.1, tree: BinTrie::Leaf(x.0) }) { Suffix::from(x) }) -- assumed contract of BinaryHeap::from_iter over a mapped iterator
@@rewrite Box::from(left.tree) ==> Box::new(left.tree) -- Box's From<T> is Box::new
@@rewrite Box::from(right.tree) ==> Box::new(right.tree) -- Box's From<T> is Box::new
@@start
    let ghost items = freq_items.remaining();
@@before assert!(min_heap.len() > 0);
    proof { lemma_forest_start(min_heap@, items); }
@@loop 0
    invariant
        forest(min_heap@, items), min_heap@.len() > 0, sum(freqs_of(items)) <= u64::MAX,
    decreases min_heap@.len(),
@@bodystart 0
    let ghost h0 = min_heap@;
@@before let right
    let ghost h1 = min_heap@;
@@before let new_tree
    let ghost h2 = min_heap@;
    let ghost i = choose|i: int| #[trigger] popped(h0, i, h1, left);
    let ghost j = choose|j: int| #[trigger] popped(h1, j, h2, right);
    proof {
        let ws = weights(h0);
        assert(h1[j] == h0[second(i, j)]);
        lemma_sum_merged(ws, i, j, 0);
    }
@@bodyend 0
    proof { lemma_forest_step(h0, items, i, j, new_suff); }
@@before let final_tree
    let ghost h0 = min_heap@;
    proof { lemma_forest_end(h0, items); }

@@top
use crate::utils::{occurs, is_freqs, lemma_occurs};
use crate::huffman::{starts, prefix_free, lengths, dot, products, lemma_sum_le, lemma_codes_bound, binary};
use crate::ser::RoundTrip;
use crate::bit::{byte_bits, lemma_bits_append, lemma_bits_len};

/// the code word of x
pub open spec fn word<T>(t: BinTrie<T>, x: T) -> Seq<Bit>
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => Seq::empty(),
        BinTrie::Branch(l, r) => if leaves(*l, x) > 0 { seq![Bit::Zero] + word(*l, x) } else { seq![Bit::One] + word(*r, x) },
    }
}

pub proof fn lemma_word<T>(t: BinTrie<T>, x: T)
    ensures
        leaves(t, x) > 0 ==> exists|i: int| 0 <= i < flat(t).len() && #[trigger] flat(t)[i] == (word(t, x), x),
        leaves(t, x) == 0 ==> forall|i: int| 0 <= i < flat(t).len() ==> (#[trigger] flat(t)[i]).1 != x,
        leaves(t, x) == 1 ==> forall|i: int| 0 <= i < flat(t).len() && (#[trigger] flat(t)[i]).1 == x ==> flat(t)[i].0 == word(t, x),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { if v == x { assert(flat(t)[0] == (word(t, x), x)); } }
        BinTrie::Branch(l, r) => {
            lemma_word(*l, x);
            lemma_word(*r, x);
            let n = flat(*l).len() as int;
            assert forall|i: int| 0 <= i < flat(t).len() implies #[trigger] flat(t)[i] ==
                if i < n { (seq![Bit::Zero] + flat(*l)[i].0, flat(*l)[i].1) } else { (seq![Bit::One] + flat(*r)[i - n].0, flat(*r)[i - n].1) } by { }
            if leaves(*l, x) > 0 {
                let i = choose|i: int| 0 <= i < n && #[trigger] flat(*l)[i] == (word(*l, x), x);
                assert(flat(t)[i] == (word(t, x), x));
            } else if leaves(*r, x) > 0 {
                let i = choose|i: int| 0 <= i < flat(*r).len() && #[trigger] flat(*r)[i] == (word(*r, x), x);
                assert(flat(t)[i + n] == (word(t, x), x));
            }
            if leaves(t, x) == 0 {
                assert forall|i: int| 0 <= i < flat(t).len() implies (#[trigger] flat(t)[i]).1 != x by {
                    if i < n { assert(flat(*l)[i].1 != x); } else { assert(flat(*r)[i - n].1 != x); }
                }
            }
            if leaves(t, x) == 1 {
                assert forall|i: int| 0 <= i < flat(t).len() && (#[trigger] flat(t)[i]).1 == x implies flat(t)[i].0 == word(t, x) by {
                    if i < n { assert(flat(*l)[i].1 == x); } else { assert(flat(*r)[i - n].1 == x); }
                }
            }
        }
    }
}

/// the code words of a sequence of symbols, one after the other
pub open spec fn words<T>(t: BinTrie<T>, items: Seq<T>) -> Seq<Bit>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else { words(t, items.drop_last()) + word(t, items.last()) }
}

/// what some other code makes of them
pub open spec fn coded_len<T>(code: spec_fn(T) -> Seq<Bit>, items: Seq<T>) -> nat
    decreases items.len(),
{
    if items.len() == 0 { 0 } else { coded_len(code, items.drop_last()) + code(items.last()).len() }
}

/// no symbol's word is the start of another symbol's
pub open spec fn decodable<T>(code: spec_fn(T) -> Seq<Bit>, items: Seq<T>) -> bool {
    forall|x: T, y: T| items.contains(x) && items.contains(y) && x != y ==> !starts(#[trigger] code(x), #[trigger] code(y))
}

/* counting */

pub proof fn lemma_count<T>(e: Seq<(T, u64)>, items: Seq<T>, code: spec_fn(T) -> Seq<Bit>)
    requires distinct(e), forall|k: int| 0 <= k < items.len() ==> has_key(e, #[trigger] items[k]),
    ensures
        sum(Seq::new(e.len(), |i: int| occurs(items, e[i].0) * code(e[i].0).len())) == coded_len(code, items),
        sum(Seq::new(e.len(), |i: int| occurs(items, e[i].0))) == items.len(),
    decreases items.len(),
{
    let u = Seq::new(e.len(), |i: int| occurs(items, e[i].0) * code(e[i].0).len());
    let u1 = Seq::new(e.len(), |i: int| occurs(items, e[i].0));
    if items.len() == 0 {
        assert forall|i: int| 0 <= i < u.len() implies u[i] == 0 by { assert(0 * code(e[i].0).len() == 0) by (nonlinear_arith); }
        lemma_sum_zero(u);
        lemma_sum_zero(u1);
    } else {
        let p = items.drop_last();
        let x = items.last();
        assert forall|k: int| 0 <= k < p.len() implies has_key(e, #[trigger] p[k]) by { assert(has_key(e, items[k])); }
        lemma_count(e, p, code);
        let s = Seq::new(e.len(), |i: int| occurs(p, e[i].0) * code(e[i].0).len());
        let s1 = Seq::new(e.len(), |i: int| occurs(p, e[i].0));
        let d = Seq::new(e.len(), |i: int| if e[i].0 == x { code(x).len() } else { 0 });
        let d1 = Seq::new(e.len(), |i: int| if e[i].0 == x { 1nat } else { 0 });
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] u[i] == s[i] + d[i] by {
            let (o, l) = (occurs(p, e[i].0), code(e[i].0).len());
            assert((o + 1) * l == o * l + l) by (nonlinear_arith);
        }
        lemma_sum_zip(s, d, u);
        lemma_sum_zip(s1, d1, u1);
        assert(has_key(e, items[items.len() - 1]));
        let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == x;
        assert forall|i: int| 0 <= i < d.len() && i != k implies #[trigger] d[i] == 0 by {
            if i < k { assert(e[i].0 != e[k].0); } else { assert(e[k].0 != e[i].0); }
        }
        assert forall|i: int| 0 <= i < d1.len() && i != k implies #[trigger] d1[i] == 0 by {
            if i < k { assert(e[i].0 != e[k].0); } else { assert(e[k].0 != e[i].0); }
        }
        lemma_only_one(d, k);
        lemma_only_one(d1, k);
    }
}

/// the depths at which the trie has x, added up
pub open spec fn depths<T>(t: BinTrie<T>, x: T) -> nat
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => 0,
        BinTrie::Branch(l, r) => depths(*l, x) + leaves(*l, x) + depths(*r, x) + leaves(*r, x),
    }
}

pub proof fn lemma_depths<T>(t: BinTrie<T>, x: T)
    ensures leaves(t, x) == 0 ==> depths(t, x) == 0, leaves(t, x) == 1 ==> depths(t, x) == word(t, x).len(),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { }
        BinTrie::Branch(l, r) => { lemma_depths(*l, x); lemma_depths(*r, x); }
    }
}

/// one more occurrence of x
pub proof fn lemma_cost_more<T>(t: BinTrie<T>, f: spec_fn(T) -> nat, g: spec_fn(T) -> nat, x: T)
    requires forall|y: T| #[trigger] g(y) == f(y) + if y == x { 1nat } else { 0 },
    ensures weight(t, g) == weight(t, f) + leaves(t, x), cost(t, g) == cost(t, f) + depths(t, x),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { }
        BinTrie::Branch(l, r) => { lemma_cost_more(*l, f, g, x); lemma_cost_more(*r, f, g, x); }
    }
}

/// no occurrences
pub proof fn lemma_cost_none<T>(t: BinTrie<T>, f: spec_fn(T) -> nat)
    requires forall|y: T| #[trigger] f(y) == 0,
    ensures weight(t, f) == 0, cost(t, f) == 0,
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { }
        BinTrie::Branch(l, r) => { lemma_cost_none(*l, f); lemma_cost_none(*r, f); }
    }
}

pub proof fn lemma_cost_same<T>(t: BinTrie<T>, f: spec_fn(T) -> nat, g: spec_fn(T) -> nat)
    requires forall|y: T| #[trigger] g(y) == f(y),
    ensures weight(t, g) == weight(t, f), cost(t, g) == cost(t, f),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { }
        BinTrie::Branch(l, r) => { lemma_cost_same(*l, f, g); lemma_cost_same(*r, f, g); }
    }
}

/// the cost of a trie is the length of what it codes
pub proof fn lemma_cost_words<T>(t: BinTrie<T>, items: Seq<T>)
    requires forall|k: int| 0 <= k < items.len() ==> leaves(t, #[trigger] items[k]) == 1,
    ensures cost(t, |x: T| occurs(items, x)) == words(t, items).len(),
    decreases items.len(),
{
    let g = |x: T| occurs(items, x);
    if items.len() == 0 { lemma_cost_none(t, g); } else {
        let p = items.drop_last();
        assert forall|k: int| 0 <= k < p.len() implies leaves(t, #[trigger] p[k]) == 1 by { assert(leaves(t, items[k]) == 1); }
        lemma_cost_words(t, p);
        lemma_cost_more(t, |x: T| occurs(p, x), g, items.last());
        assert(leaves(t, items[items.len() - 1]) == 1);
        lemma_depths(t, items.last());
    }
}

/// the entries of the table of frequencies
pub open spec fn counted<T>(e: Seq<(T, u64)>, items: Seq<T>) -> bool {
    &&& distinct(e)
    &&& forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1 == occurs(items, e[i].0) && items.contains(e[i].0)
    &&& forall|k: int| 0 <= k < items.len() ==> has_key(e, #[trigger] items[k])
}

pub proof fn lemma_counted<T>(m: Map<T, u64>, e: Seq<(T, u64)>, items: Seq<T>)
    requires crate::rt::entries_of(m, e), is_freqs(m, items),
    ensures counted(e, items), sum(freqs_of(e)) == items.len(), items.len() > 0 ==> e.len() > 0,
{
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).1 == occurs(items, e[i].0) && items.contains(e[i].0) by {
        assert(m.contains_key(e[i].0) && m[e[i].0] == e[i].1);
        lemma_occurs(items, e[i].0);
    }
    assert forall|k: int| 0 <= k < items.len() implies has_key(e, #[trigger] items[k]) by {
        lemma_occurs(items, items[k]);
        assert(items.contains(items[k]));
        assert(m.contains_key(items[k]));
    }
    lemma_count(e, items, |x: T| Seq::<Bit>::empty());
    assert(freqs_of(e) =~= Seq::new(e.len(), |i: int| occurs(items, e[i].0)));
    if items.len() > 0 { assert(has_key(e, items[0])); }
}

/// the trie codes exactly the given symbols, each once, and no code in which
/// no word starts another makes less of them
pub open spec fn best_for<T>(t: BinTrie<T>, items: Seq<T>) -> bool {
    &&& forall|x: T| #[trigger] leaves(t, x) == if items.contains(x) { 1nat } else { 0nat }
    &&& forall|code: spec_fn(T) -> Seq<Bit>| #[trigger] decodable(code, items) ==> words(t, items).len() <= coded_len(code, items)
}

pub proof fn lemma_best<T>(t: BinTrie<T>, e: Seq<(T, u64)>, items: Seq<T>)
    requires best_trie(t, e), counted(e, items),
    ensures best_for(t, items),
{
    assert forall|x: T| has_key(e, x) == items.contains(x) by {
        if has_key(e, x) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == x; assert(items.contains(e[i].0)); }
        if items.contains(x) { let k = choose|k: int| 0 <= k < items.len() && items[k] == x; assert(has_key(e, items[k])); }
    }
    assert forall|x: T| #[trigger] leaves(t, x) == if items.contains(x) { 1nat } else { 0nat } by {
        assert(has_key(e, x) == items.contains(x));
    }
    assert forall|k: int| 0 <= k < items.len() implies leaves(t, #[trigger] items[k]) == 1 by { assert(items.contains(items[k])); }
    lemma_cost_words(t, items);
    let f = |x: T| freq_in(e, x);
    let g = |x: T| occurs(items, x);
    assert forall|x: T| #[trigger] g(x) == f(x) by {
        lemma_occurs(items, x);
        assert(has_key(e, x) == items.contains(x));
        if has_key(e, x) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == x; assert(e[i].1 == occurs(items, e[i].0)); }
    }
    lemma_cost_same(t, f, g);
    assert forall|code: spec_fn(T) -> Seq<Bit>| #[trigger] decodable(code, items) implies words(t, items).len() <= coded_len(code, items) by {
        let cs = Seq::new(e.len(), |i: int| code(e[i].0));
        assert forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j implies !starts(#[trigger] cs[i], #[trigger] cs[j]) by {
            if i < j { assert(e[i].0 != e[j].0); } else { assert(e[j].0 != e[i].0); }
            assert(items.contains(e[i].0) && items.contains(e[j].0));
            assert(!starts(code(e[i].0), code(e[j].0)));
        }
        lemma_codes_bound(freqs_of(e), cost(t, f), cs, Bit::Zero, Bit::One);
        lemma_count(e, items, code);
        assert(products(freqs_of(e), lengths(cs)) =~= Seq::new(e.len(), |i: int| occurs(items, e[i].0) * code(e[i].0).len()));
    }
}

/* bits and bytes */

pub proof fn lemma_byte_bits_inj(a: u8, b: u8)
    requires byte_bits(a, BitOrder::MsbFirst) == byte_bits(b, BitOrder::MsbFirst),
    ensures a == b,
{
    let bo = BitOrder::MsbFirst;
    assert forall|i: int| 0 <= i < 8 implies crate::bit::bit_at(a, i, bo) == crate::bit::bit_at(b, i, bo) by {
        assert(byte_bits(a, bo)[i] == byte_bits(b, bo)[i]);
    }
    assert(crate::bit::bit_at(a, 0, bo) == crate::bit::bit_at(b, 0, bo));
    assert(crate::bit::bit_at(a, 1, bo) == crate::bit::bit_at(b, 1, bo));
    assert(crate::bit::bit_at(a, 2, bo) == crate::bit::bit_at(b, 2, bo));
    assert(crate::bit::bit_at(a, 3, bo) == crate::bit::bit_at(b, 3, bo));
    assert(crate::bit::bit_at(a, 4, bo) == crate::bit::bit_at(b, 4, bo));
    assert(crate::bit::bit_at(a, 5, bo) == crate::bit::bit_at(b, 5, bo));
    assert(crate::bit::bit_at(a, 6, bo) == crate::bit::bit_at(b, 6, bo));
    assert(crate::bit::bit_at(a, 7, bo) == crate::bit::bit_at(b, 7, bo));
    assert(a == b) by (bit_vector) requires
        (a & (0x80u8 >> 0u8) == 0) == (b & (0x80u8 >> 0u8) == 0),
        (a & (0x80u8 >> 1u8) == 0) == (b & (0x80u8 >> 1u8) == 0),
        (a & (0x80u8 >> 2u8) == 0) == (b & (0x80u8 >> 2u8) == 0),
        (a & (0x80u8 >> 3u8) == 0) == (b & (0x80u8 >> 3u8) == 0),
        (a & (0x80u8 >> 4u8) == 0) == (b & (0x80u8 >> 4u8) == 0),
        (a & (0x80u8 >> 5u8) == 0) == (b & (0x80u8 >> 5u8) == 0),
        (a & (0x80u8 >> 6u8) == 0) == (b & (0x80u8 >> 6u8) == 0),
        (a & (0x80u8 >> 7u8) == 0) == (b & (0x80u8 >> 7u8) == 0),
    ;
}

pub proof fn lemma_bits_inj(s: Seq<u8>, t: Seq<u8>)
    requires bytes_bits(s, BitOrder::MsbFirst) == bytes_bits(t, BitOrder::MsbFirst),
    ensures s == t,
    decreases s.len(),
{
    let bo = BitOrder::MsbFirst;
    lemma_bits_len(s, bo);
    lemma_bits_len(t, bo);
    if s.len() > 0 {
        let n = 8 * (s.len() - 1);
        let (s1, t1) = (s.drop_last(), t.drop_last());
        lemma_bits_len(s1, bo);
        lemma_bits_len(t1, bo);
        assert(bytes_bits(s, bo) == bytes_bits(s1, bo) + byte_bits(s.last(), bo));
        assert(bytes_bits(t, bo) == bytes_bits(t1, bo) + byte_bits(t.last(), bo));
        assert(bytes_bits(s, bo).take(n) =~= bytes_bits(s1, bo));
        assert(bytes_bits(t, bo).take(n) =~= bytes_bits(t1, bo));
        assert(bytes_bits(s, bo).skip(n) =~= byte_bits(s.last(), bo));
        assert(bytes_bits(t, bo).skip(n) =~= byte_bits(t.last(), bo));
        lemma_bits_inj(s1, t1);
        lemma_byte_bits_inj(s.last(), t.last());
        assert(s =~= s1.push(s.last()));
        assert(t =~= t1.push(t.last()));
    } else {
        assert(s =~= t);
    }
}

/// what was written after the first bytes
pub proof fn lemma_payload(a: Seq<u8>, f: Seq<u8>, c: Seq<Bit>) -> (p: Seq<u8>)
    requires bytes_bits(f, BitOrder::MsbFirst) == bytes_bits(a, BitOrder::MsbFirst) + c,
    ensures f == a + p, bytes_bits(p, BitOrder::MsbFirst) == c,
{
    let bo = BitOrder::MsbFirst;
    lemma_bits_len(f, bo);
    lemma_bits_len(a, bo);
    let n = a.len() as int;
    let (h, p) = (f.take(n), f.skip(n));
    assert(f =~= h + p);
    lemma_bits_append(h, p, bo);
    lemma_bits_len(h, bo);
    assert(bytes_bits(f, bo).take(8 * n) =~= bytes_bits(h, bo));
    assert(bytes_bits(f, bo).take(8 * n) =~= bytes_bits(a, bo));
    lemma_bits_inj(h, a);
    assert(bytes_bits(f, bo).skip(8 * n) =~= bytes_bits(p, bo));
    assert(bytes_bits(f, bo).skip(8 * n) =~= c);
    p
}

/* the file: the trie, then the code words, then zero bits up to a whole byte */

pub open spec fn huf_file<T: Serialize>(items: Seq<T>, b: Seq<u8>, t: BinTrie<T>, payload: Seq<u8>) -> bool {
    &&& b == trie_ser(t) + payload
    &&& trie_ser_ok(t)
    &&& best_for(t, items)
    &&& bytes_bits(payload, BitOrder::MsbFirst) == words(t, items) + zeros(pad_len(words(t, items).len()))
}

pub open spec fn huf_encodes<T: Serialize>(items: Seq<T>, b: Seq<u8>) -> bool {
    exists|t: BinTrie<T>, payload: Seq<u8>| #[trigger] huf_file(items, b, t, payload)
}

/// every call gives an iterator over the same items
#[verifier::prophetic]
pub open spec fn yields<T, I: Iterator<Item = T>, F: Fn() -> I>(f: F, items: Seq<T>) -> bool {
    &&& call_requires(f, ())
    &&& forall|it: I| #[trigger] call_ensures(f, (), it) ==> it.obeys_prophetic_iter_laws() && it.remaining() == items
}

pub proof fn lemma_trie_ok<T: Serialize>(t: BinTrie<T>)
    ensures (forall|x: T| #[trigger] x.ser_ok()) ==> trie_ser_ok(t),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { },
        BinTrie::Branch(l, r) => { lemma_trie_ok(*l); lemma_trie_ok(*r); },
    }
}

pub proof fn lemma_words_push<T>(t: BinTrie<T>, items: Seq<T>, x: T)
    ensures words(t, items.push(x)) == words(t, items) + word(t, x),
{
    assert(items.push(x).drop_last() =~= items);
}

pub proof fn lemma_table<T>(m: Map<T, crate::bit::BitArray>, t: BinTrie<T>, x: T)
    requires table_of(m, flat(t)), leaves(t, x) == 1,
    ensures m.contains_key(x), m[x]@ == word(t, x), m[x].wf(), m[x].bit_order == BIT_ORDER,
{
    lemma_word(t, x);
    let i = choose|i: int| 0 <= i < flat(t).len() && #[trigger] flat(t)[i] == (word(t, x), x);
    assert(flat(t)[i].1 == x);
    assert(m.contains_key(x));
}

@@fn encode_all ret r
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@spec
    requires
        vstd::std_specs::hash::obeys_key_model::<T>(), clone_is_eq::<T>(),
        exists|items: Seq<T>| #[trigger] yields(new_iter, items) && 0 < items.len() <= u64::MAX,
    ensures
        r is Ok ==> forall|items: Seq<T>| #[trigger] yields(new_iter, items) ==> exists|b: Seq<u8>| #[trigger] huf_encodes(items, b)
            && (*final(writer)).written() == (*old(writer)).written() + b,
        r is Ok ==> (*final(writer)).fut() == (*old(writer)).fut(),
        (*old(writer)).infallible() && (forall|x: T| #[trigger] x.ser_ok()) ==> r is Ok && (*final(writer)).infallible(),
@@rewrite let item_freqs = utils::count_freqs(new_iter()); ==> let first = new_iter(); let ghost all = first.remaining(); let item_freqs = utils::count_freqs(first); let ghost m = item_freqs@; -- the iterator is given a name
@@rewrite let (enc, dec) = build(item_freqs.into_iter()); ==> let entries = crate::rt::into_entries(item_freqs); let ghost e = entries.remaining(); proof { lemma_counted(m, e, all); } let (enc, dec) = build(entries); -- assumed contract of HashMap::into_iter; the iterator is given a name
@@before dec.serialize(writer)?;
    let ghost t = dec.trie;
    proof { lemma_best(t, e, all); lemma_trie_ok(t); }
@@before let mut bit_writer
    let ghost w0 = (*writer).written();
    let ghost fut = writer.fut();
    let ghost fu = (*writer).fut();
@@forwhile 0 rest
@@loop 0
    invariant
        vstd::std_specs::hash::obeys_key_model::<T>(),
        0 <= done <= all.len(), rest.obeys_prophetic_iter_laws(), rest.remaining() == all.skip(done),
        best_for(t, all), table_of(enc.codes@, flat(t)),
        bit_writer.wf(), bit_writer.order() == BIT_ORDER, bit_writer.fut() == fut,
        bit_writer.bits() == bytes_bits(w0, BIT_ORDER) + words(t, all.take(done)),
        (*old(writer)).infallible() && (forall|x: T| #[trigger] x.ser_ok()) ==> bit_writer.sure(),
    ensures done == all.len(),
@@before for symbol in
    let ghost mut done: int = 0;
    proof {
        assert(all.skip(0) =~= all);
        assert(all.take(0) =~= Seq::<T>::empty());
        assert(bit_writer.bits() =~= bytes_bits(w0, BIT_ORDER) + words(t, all.take(0)));
    }
@@bodystart 0
    proof {
        assert(all.take(done + 1) =~= all.take(done).push(all[done]));
        assert(all.skip(done)[0] == all[done]);
        assert(all.skip(done).drop_first() =~= all.skip(done + 1));
        lemma_words_push(t, all.take(done), all[done]);
        assert(all.contains(all[done]));
        lemma_table(enc.codes@, t, all[done]);
        assert((bytes_bits(w0, BIT_ORDER) + words(t, all.take(done))) + word(t, all[done]) =~= bytes_bits(w0, BIT_ORDER) + words(t, all.take(done + 1)));
        done = done + 1;
    }
@@before bit_writer.pad_and_flush()?;
    let ghost c = words(t, all);
    proof {
        assert(all.take(all.len() as int) =~= all);
        lemma_bits_len(w0, BIT_ORDER);
    }
@@after bit_writer.pad_and_flush()?;
    proof {
        assert(*(bit_writer.fut().under->Some_0) == fu);
        let f = bit_writer.writer.written();
        let z = c + zeros(pad_len(c.len()));
        assert(bytes_bits(w0, BIT_ORDER) + c + zeros(pad_len(c.len())) =~= bytes_bits(w0, BIT_ORDER) + z);
        let p = lemma_payload(w0, f, z);
        let b = trie_ser(t) + p;
        assert(huf_file(all, b, t, p));
        assert(huf_encodes(all, b));
        assert(f =~= (*old(writer)).written() + b);
    }

@@fn decode_all ret r
@@spec
    requires input.obeys_prophetic_iter_laws(),
    ensures
        r is Some <==> trie_plen::<T>(input.remaining()) is Some,
        r is Some ==> trie_pval(input.remaining(), r->Some_0.dec.trie) && r->Some_0.bits.obeys_prophetic_iter_laws()
            && r->Some_0.bits.remaining() == bytes_bits(input.remaining().skip(trie_plen::<T>(input.remaining())->Some_0 as int), BitOrder::MsbFirst),
@@fn <Suffix as PartialEq>::eq
@@fn <Suffix as PartialOrd>::partial_cmp
@@fn <Suffix as Ord>::cmp
@@fn <Suffix as From<(T,N)>>::from

@@bottom
/* ---- the theorems: what encode_all wrote, decode_all reads back ---- */

impl<T: RoundTrip> RoundTrip for BinTrie<T> {
    proof fn rt(x: Self, tail: Seq<u8>) { lemma_trie_rt(x, tail); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) {
        lemma_trie_mono::<T>(s, t);
        assert forall|v: Self| Self::pval(s, v) == #[trigger] Self::pval(s + t, v) by { lemma_trie_mono_val(s, t, v); }
    }
}

impl<T: RoundTrip> RoundTrip for Dec<T> {
    proof fn rt(x: Self, tail: Seq<u8>) { lemma_trie_rt(x.trie, tail); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) {
        lemma_trie_mono::<T>(s, t);
        assert forall|v: Self| Self::pval(s, v) == #[trigger] Self::pval(s + t, v) by { lemma_trie_mono_val(s, t, v.trie); }
    }
}

proof fn lemma_skip_add(s: Seq<u8>, t: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures (s + t).skip(n) == s.skip(n) + t,
{
    assert((s + t).skip(n) =~= s.skip(n) + t);
}

proof fn lemma_trie_mono<T: RoundTrip>(s: Seq<u8>, t: Seq<u8>)
    requires trie_plen::<T>(s) is Some,
    ensures 0 < trie_plen::<T>(s)->Some_0 <= s.len(), trie_plen::<T>(s + t) == trie_plen::<T>(s),
    decreases s.len(),
{
    assert((s + t)[0] == s[0]);
    lemma_skip_add(s, t, 1);
    if s[0] == SER_ENUM_LEAF {
        T::mono(s.skip(1), t);
    } else {
        lemma_trie_mono::<T>(s.skip(1), t);
        let a = trie_plen::<T>(s.skip(1))->Some_0;
        lemma_skip_add(s.skip(1), t, a as int);
        lemma_trie_mono::<T>(s.skip(1).skip(a as int), t);
    }
}

proof fn lemma_trie_mono_val<T: RoundTrip>(s: Seq<u8>, t: Seq<u8>, v: BinTrie<T>)
    requires trie_plen::<T>(s) is Some,
    ensures trie_pval(s, v) == trie_pval(s + t, v),
    decreases v,
{
    assert((s + t)[0] == s[0]);
    lemma_skip_add(s, t, 1);
    match v {
        BinTrie::Leaf(x) => {
            if s[0] == SER_ENUM_LEAF {
                T::mono(s.skip(1), t);
                assert(T::pval(s.skip(1), x) == T::pval(s.skip(1) + t, x));
            }
        }
        BinTrie::Branch(l, r) => {
            if s[0] == SER_ENUM_BRANCH {
                lemma_trie_mono::<T>(s.skip(1), t);
                let a = trie_plen::<T>(s.skip(1))->Some_0;
                lemma_skip_add(s.skip(1), t, a as int);
                lemma_trie_mono_val(s.skip(1), t, *l);
                lemma_trie_mono_val(s.skip(1).skip(a as int), t, *r);
            }
        }
    }
}

proof fn lemma_trie_rt<T: RoundTrip>(x: BinTrie<T>, tail: Seq<u8>)
    requires trie_ser_ok(x),
    ensures
        trie_plen::<T>(trie_ser(x) + tail) == Some(trie_ser(x).len()),
        forall|v: BinTrie<T>| #[trigger] trie_pval(trie_ser(x) + tail, v) ==> v == x,
    decreases x,
{
    let s = trie_ser(x) + tail;
    match x {
        BinTrie::Leaf(v) => {
            assert(s.skip(1) =~= v.ser() + tail);
            T::rt(v, tail);
            assert forall|w: BinTrie<T>| #[trigger] trie_pval(s, w) implies w == x by {
                match w { BinTrie::Leaf(y) => { assert(T::pval(v.ser() + tail, y)); } BinTrie::Branch(_, _) => { } }
            }
        }
        BinTrie::Branch(l, r) => {
            let (a, b) = (trie_ser(*l), trie_ser(*r));
            assert(s.skip(1) =~= a + (b + tail));
            lemma_trie_rt(*l, b + tail);
            assert((a + (b + tail)).skip(a.len() as int) =~= b + tail);
            lemma_trie_rt(*r, tail);
            assert forall|w: BinTrie<T>| #[trigger] trie_pval(s, w) implies w == x by {
                match w {
                    BinTrie::Leaf(_) => { }
                    BinTrie::Branch(l2, r2) => {
                        assert(trie_pval(a + (b + tail), *l2));
                        assert(trie_pval(b + tail, *r2));
                        assert(*l2 == *l && *r2 == *r);
                    }
                }
            }
        }
    }
}

/// the first n symbols decoded from a sequence of bits
pub open spec fn dec_n<T>(t: BinTrie<T>, bits: Seq<Bit>, n: nat) -> Option<Seq<T>>
    decreases n,
{
    if n == 0 { Some(Seq::empty()) } else {
        match look(t, bits) {
            None => None,
            Some((v, rest)) => match dec_n(t, rest, (n - 1) as nat) { None => None, Some(s) => Some(seq![v] + s) },
        }
    }
}

/// what a DecStream over these bits delivers first
pub proof fn lemma_dec_n<T>(t: BinTrie<T>, bits: Seq<Bit>, n: nat)
    requires dec_n(t, bits, n) is Some,
    ensures
        dec_n(t, bits, n)->Some_0.len() == n,
        t is Branch ==> dec_all(t, bits).len() >= n && dec_all(t, bits).take(n as int) == dec_n(t, bits, n)->Some_0,
        t is Leaf ==> forall|i: int| 0 <= i < n ==> dec_n(t, bits, n)->Some_0[i] == t->Leaf_0,
    decreases n,
{
    if n > 0 {
        let (v, rest) = look(t, bits)->Some_0;
        lemma_dec_n(t, rest, (n - 1) as nat);
        if t is Branch {
            lemma_dec_step(t, bits);
            assert((seq![v] + dec_all(t, rest)).take(n as int) =~= seq![v] + dec_all(t, rest).take(n - 1));
        }
    } else if t is Branch {
        assert(dec_all(t, bits).take(0) =~= Seq::<T>::empty());
    }
}

pub proof fn lemma_words_first<T>(t: BinTrie<T>, items: Seq<T>)
    requires items.len() > 0,
    ensures words(t, items) == word(t, items[0]) + words(t, items.drop_first()),
    decreases items.len(),
{
    if items.len() == 1 {
        assert(items.drop_last() =~= Seq::<T>::empty());
        assert(items.drop_first() =~= Seq::<T>::empty());
        assert(words(t, items) =~= word(t, items[0]));
        assert(word(t, items[0]) + Seq::<Bit>::empty() =~= word(t, items[0]));
    } else {
        lemma_words_first(t, items.drop_last());
        assert(items.drop_first().drop_last() =~= items.drop_last().drop_first());
        assert(words(t, items) =~= word(t, items[0]) + words(t, items.drop_first()));
    }
}

/// decoding code words gives the symbols, whatever follows
pub proof fn lemma_lossless<T>(t: BinTrie<T>, items: Seq<T>, rest: Seq<Bit>)
    requires forall|k: int| 0 <= k < items.len() ==> leaves(t, #[trigger] items[k]) == 1,
    ensures dec_n(t, words(t, items) + rest, items.len()) == Some(items),
    decreases items.len(),
{
    if items.len() > 0 {
        let (x, xs) = (items[0], items.drop_first());
        lemma_words_first(t, items);
        lemma_word(t, x);
        assert(leaves(t, items[0]) == 1);
        let i = choose|i: int| 0 <= i < flat(t).len() && #[trigger] flat(t)[i] == (word(t, x), x);
        lemma_look(t, i, words(t, xs) + rest);
        assert(words(t, items) + rest =~= word(t, x) + (words(t, xs) + rest));
        assert forall|k: int| 0 <= k < xs.len() implies leaves(t, #[trigger] xs[k]) == 1 by { assert(leaves(t, items[k + 1]) == 1); }
        lemma_lossless(t, xs, rest);
        assert(seq![x] + xs =~= items);
    } else {
        assert(items =~= Seq::<T>::empty());
    }
}

/// what decode_all makes of what encode_all wrote, whatever follows it: the
/// trie it parses delivers the items, in order
pub proof fn theorem_lossless<T: RoundTrip>(items: Seq<T>, b: Seq<u8>, tail: Seq<u8>, t2: BinTrie<T>)
    requires huf_encodes(items, b),
    ensures
        trie_plen::<T>(b + tail) is Some,
        trie_pval(b + tail, t2) ==> dec_n(t2, bytes_bits((b + tail).skip(trie_plen::<T>(b + tail)->Some_0 as int), BitOrder::MsbFirst), items.len()) == Some(items),
{
    let bo = BitOrder::MsbFirst;
    let (t, p) = choose|t: BinTrie<T>, p: Seq<u8>| #[trigger] huf_file(items, b, t, p);
    assert(b + tail =~= trie_ser(t) + (p + tail));
    lemma_trie_rt(t, p + tail);
    assert((b + tail).skip(trie_ser(t).len() as int) =~= p + tail);
    if trie_pval(b + tail, t2) {
        assert(t2 == t);
        lemma_bits_append(p, tail, bo);
        let rest = zeros(pad_len(words(t, items).len())) + bytes_bits(tail, bo);
        assert(bytes_bits(p + tail, bo) =~= words(t, items) + rest);
        assert forall|k: int| 0 <= k < items.len() implies leaves(t, #[trigger] items[k]) == 1 by { assert(items.contains(items[k])); }
        lemma_lossless(t, items, rest);
    }
}

/// two different code words of the trie: neither starts the other
pub proof fn theorem_prefix_free<T>(t: BinTrie<T>, items: Seq<T>, x: T, y: T)
    requires best_for(t, items), items.contains(x), items.contains(y), x != y,
    ensures !starts(word(t, y), word(t, x)),
{
    lemma_word(t, x);
    lemma_word(t, y);
    assert(leaves(t, x) == 1 && leaves(t, y) == 1);
    let i = choose|i: int| 0 <= i < flat(t).len() && #[trigger] flat(t)[i] == (word(t, x), x);
    let j = choose|j: int| 0 <= j < flat(t).len() && #[trigger] flat(t)[j] == (word(t, y), y);
    lemma_prefix_free(t, i, j);
}

/// one symbol: what follows makes no difference, and its code word is what is read
pub proof fn lemma_look_more<T>(t: BinTrie<T>, bits: Seq<Bit>, more: Seq<Bit>)
    requires look(t, bits) is Some,
    ensures
        look(t, bits + more) == Some((look(t, bits)->Some_0.0, look(t, bits)->Some_0.1 + more)),
        leaves(t, look(t, bits)->Some_0.0) >= 1,
        leaves(t, look(t, bits)->Some_0.0) == 1 ==> bits.len() == word(t, look(t, bits)->Some_0.0).len() + look(t, bits)->Some_0.1.len(),
    decreases t,
{
    match t {
        BinTrie::Leaf(v) => { }
        BinTrie::Branch(l, r) => {
            assert((bits + more)[0] == bits[0]);
            assert((bits + more).drop_first() =~= bits.drop_first() + more);
            if bits[0] == Bit::Zero { lemma_look_more(*l, bits.drop_first(), more); } else { lemma_look_more(*r, bits.drop_first(), more); }
        }
    }
}

/// symbols decoded: what follows makes no difference, and the bits must be
/// at least those of the code words
pub proof fn lemma_dec_n_more<T>(t: BinTrie<T>, bits: Seq<Bit>, more: Seq<Bit>, n: nat)
    requires dec_n(t, bits, n) is Some,
    ensures
        dec_n(t, bits + more, n) == dec_n(t, bits, n),
        (forall|k: int| 0 <= k < dec_n(t, bits, n)->Some_0.len() ==> leaves(t, #[trigger] dec_n(t, bits, n)->Some_0[k]) == 1)
            ==> words(t, dec_n(t, bits, n)->Some_0).len() <= bits.len(),
    decreases n,
{
    if n > 0 {
        lemma_look_more(t, bits, more);
        let (v, rest) = look(t, bits)->Some_0;
        lemma_dec_n_more(t, rest, more, (n - 1) as nat);
        let s = dec_n(t, rest, (n - 1) as nat)->Some_0;
        let all = dec_n(t, bits, n)->Some_0;
        assert(all =~= seq![v] + s);
        assert(all.drop_first() =~= s);
        lemma_words_first(t, all);
        if forall|k: int| 0 <= k < all.len() ==> leaves(t, #[trigger] all[k]) == 1 {
            assert(leaves(t, all[0]) == 1);
            assert forall|k: int| 0 <= k < s.len() implies leaves(t, #[trigger] s[k]) == 1 by { assert(leaves(t, all[k + 1]) == 1); }
        }
    }
}

/// a decoder that cannot deliver n symbols stops before
pub proof fn lemma_dec_short<T>(t: BinTrie<T>, bits: Seq<Bit>, n: nat)
    requires t is Branch, dec_n(t, bits, n) is None,
    ensures dec_all(t, bits).len() < n,
    decreases n,
{
    lemma_dec_step(t, bits);
    if look(t, bits) is Some { lemma_dec_short(t, look(t, bits)->Some_0.1, (n - 1) as nat); }
}

/// no proper prefix of what encode_all wrote can be decoded completely
pub proof fn theorem_truncated<T: RoundTrip>(items: Seq<T>, b: Seq<u8>, k: int, t2: BinTrie<T>)
    requires huf_encodes(items, b), 0 <= k < b.len(),
    ensures
        trie_plen::<T>(b.take(k)) is Some && trie_pval(b.take(k), t2)
            ==> t2 is Branch && dec_n(t2, bytes_bits(b.take(k).skip(trie_plen::<T>(b.take(k))->Some_0 as int), BitOrder::MsbFirst), items.len()) is None,
{
    let bo = BitOrder::MsbFirst;
    let (t, p) = choose|t: BinTrie<T>, p: Seq<u8>| #[trigger] huf_file(items, b, t, p);
    let s = b.take(k);
    let rest = b.skip(k);
    assert(s + rest =~= b);
    if trie_plen::<T>(s) is Some && trie_pval(s, t2) {
        lemma_trie_mono::<T>(s, rest);
        lemma_trie_mono_val(s, rest, t2);
        lemma_trie_rt(t, p);
        assert(t2 == t);
        let n = trie_ser(t).len() as int;
        let q = s.skip(n);
        assert(q + rest =~= p);
        let (bq, br) = (bytes_bits(q, bo), bytes_bits(rest, bo));
        lemma_bits_append(q, rest, bo);
        lemma_bits_len(q, bo);
        lemma_bits_len(rest, bo);
        lemma_bits_len(p, bo);
        let w = words(t, items);
        let z = zeros(pad_len(w.len()));
        assert forall|k: int| 0 <= k < items.len() implies leaves(t, #[trigger] items[k]) == 1 by { assert(items.contains(items[k])); }
        lemma_lossless(t, items, z);
        if t is Leaf { lemma_words_leaf(t, items); assert(false); }
        if dec_n(t, bq, items.len()) is Some {
            lemma_dec_n_more(t, bq, br, items.len());
            assert(bq + br =~= w + z);
            assert(dec_n(t, bq, items.len()) == Some(items));
            assert(w.len() <= bq.len());
            assert(false);
        }
    }
}

pub proof fn lemma_dec_n_first<T>(t: BinTrie<T>, bits: Seq<Bit>, n: nat, j: nat)
    requires dec_n(t, bits, n) is Some, j <= n,
    ensures dec_n(t, bits, n)->Some_0.len() == n, dec_n(t, bits, j) == Some(dec_n(t, bits, n)->Some_0.take(j as int)),
    decreases n,
{
    if n > 0 {
        let (v, rest) = look(t, bits)->Some_0;
        let s = dec_n(t, rest, (n - 1) as nat)->Some_0;
        if j > 0 {
            lemma_dec_n_first(t, rest, (n - 1) as nat, (j - 1) as nat);
            assert((seq![v] + s).take(j as int) =~= seq![v] + s.take(j - 1));
        } else {
            lemma_dec_n_first(t, rest, (n - 1) as nat, 0);
            assert((seq![v] + s).take(0) =~= Seq::empty());
        }
    } else {
        assert(Seq::<T>::empty().take(0) =~= Seq::empty());
    }
}

/// what can be decoded of a proper prefix are the first symbols
pub proof fn theorem_truncated_symbols<T: RoundTrip>(items: Seq<T>, b: Seq<u8>, k: int, t2: BinTrie<T>, j: nat)
    requires
        huf_encodes(items, b), 0 <= k < b.len(), j <= items.len(),
        trie_plen::<T>(b.take(k)) is Some, trie_pval(b.take(k), t2),
        dec_n(t2, payload::<T>(b.take(k)), j) is Some,
    ensures dec_n(t2, payload::<T>(b.take(k)), j) == Some(items.take(j as int)),
{
    let bo = BitOrder::MsbFirst;
    let (t, p) = choose|t: BinTrie<T>, p: Seq<u8>| #[trigger] huf_file(items, b, t, p);
    let s = b.take(k);
    let rest = b.skip(k);
    assert(s + rest =~= b);
    lemma_trie_mono::<T>(s, rest);
    lemma_trie_mono_val(s, rest, t2);
    lemma_trie_rt(t, p);
    assert(t2 == t);
    let n = trie_ser(t).len() as int;
    let q = s.skip(n);
    assert(q + rest =~= p);
    let (bq, br) = (bytes_bits(q, bo), bytes_bits(rest, bo));
    lemma_bits_append(q, rest, bo);
    let w = words(t, items);
    let z = zeros(pad_len(w.len()));
    assert forall|k: int| 0 <= k < items.len() implies leaves(t, #[trigger] items[k]) == 1 by { assert(items.contains(items[k])); }
    lemma_lossless(t, items, z);
    lemma_dec_n_more(t, bq, br, j);
    assert(bq + br =~= w + z);
    lemma_dec_n_first(t, w + z, items.len(), j);
}

pub proof fn lemma_words_leaf<T>(t: BinTrie<T>, items: Seq<T>)
    requires t is Leaf,
    ensures words(t, items).len() == 0,
    decreases items.len(),
{
    if items.len() > 0 { lemma_words_leaf(t, items.drop_last()); }
}

/// what a DecStream delivers when asked n times
pub proof fn lemma_deliver<T>(t: BinTrie<T>, bits: Seq<Bit>, n: nat)
    ensures
        t is Branch && dec_all(t, bits).len() < n ==> dec_n(t, bits, n) is None,
        t is Branch && dec_all(t, bits).len() >= n ==> dec_n(t, bits, n) == Some(dec_all(t, bits).take(n as int)),
        t is Leaf ==> dec_n(t, bits, n) == Some(Seq::new(n, |i: int| t->Leaf_0)),
    decreases n,
{
    if t is Branch {
        if dec_n(t, bits, n) is Some { lemma_dec_n(t, bits, n); } else { lemma_dec_short(t, bits, n); }
    } else if n > 0 {
        lemma_deliver(t, bits, (n - 1) as nat);
        assert(seq![t->Leaf_0] + Seq::new((n - 1) as nat, |i: int| t->Leaf_0) =~= Seq::new(n, |i: int| t->Leaf_0));
    } else {
        assert(Seq::new(n, |i: int| t->Leaf_0) =~= Seq::empty());
    }
}

pub proof fn lemma_delivered<T>(t: BinTrie<T>, bits: Seq<Bit>, got: Seq<T>)
    requires
        t is Branch ==> dec_all(t, bits).len() >= got.len() && forall|j: int| 0 <= j < got.len() ==> got[j] == dec_all(t, bits)[j],
        t is Leaf ==> forall|j: int| 0 <= j < got.len() ==> got[j] == t->Leaf_0,
    ensures dec_n(t, bits, got.len()) == Some(got),
{
    lemma_deliver(t, bits, got.len());
    if t is Branch { assert(dec_all(t, bits).take(got.len() as int) =~= got); } else { assert(Seq::new(got.len(), |i: int| t->Leaf_0) =~= got); }
}
