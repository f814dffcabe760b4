// Contracts assumed for the standard library, and the targets of the
// mechanical rewrites.  Everything in this file that is not proved is trusted.
use vstd::prelude::*;
use std::io;
pub use crate::rtw::WriteSpec;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};

verus! {

pub fn rt_assert(c: bool)
    requires c,
{
}

#[verifier::external_body]
pub fn rt_unreachable() -> !
    requires false,
{
    unreachable!()
}

pub assume_specification<T>[ std::slice::from_ref ](x: &T) -> (r: &[T])
    ensures r@ == seq![*x],
;

} // verus!

verus! {

/* Iterator::flat_map over a closure that returns an array: the concatenation
   of the arrays, in order (assumed contract of the standard adaptor) */
pub open spec fn flat_with<X, T>(s: Seq<X>, g: spec_fn(X) -> Seq<T>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { g(s[0]) + flat_with(s.drop_first(), g) }
}

#[verifier::external_body]
pub fn flat_map_arr<I: Iterator, T, F: Fn(I::Item) -> [T; N], const N: usize>(it: I, f: F) -> (r: impl Iterator<Item = T>)
    requires
        forall|x: I::Item| f.requires((x,)),
    ensures
        it.obeys_prophetic_iter_laws() ==> r.obeys_prophetic_iter_laws(),
        it.obeys_prophetic_iter_laws() ==> (r.will_return_none() <==> it.will_return_none()),
        it.obeys_prophetic_iter_laws() ==> forall|g: spec_fn(I::Item) -> Seq<T>|
            (forall|x: I::Item, o: [T; N]| #[trigger] f.ensures((x,), o) ==> o@ == g(x))
            ==> r.remaining() == #[trigger] flat_with(it.remaining(), g),
{
    it.flat_map(f)
}

} // verus!

verus! {

/* little-endian representation (assumed contracts of to_le_bytes and
   from_le_bytes) */
pub open spec fn le_seq(x: nat, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_seq(x / 256, (n - 1) as nat) }
}

pub open spec fn le_val(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.drop_first()) }
}

pub open spec fn pow256(n: nat) -> nat
    decreases n,
{
    if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) }
}

pub proof fn lemma_le_len(x: nat, n: nat)
    ensures le_seq(x, n).len() == n,
    decreases n,
{
    if n > 0 { lemma_le_len(x / 256, (n - 1) as nat); }
}

pub proof fn lemma_le_roundtrip(x: nat, n: nat)
    requires x < pow256(n),
    ensures le_val(le_seq(x, n)) == x, le_seq(x, n).len() == n,
    decreases n,
{
    if n > 0 {
        assert(x / 256 < pow256((n - 1) as nat)) by (nonlinear_arith)
            requires x < 256 * pow256((n - 1) as nat);
        lemma_le_roundtrip(x / 256, (n - 1) as nat);
        assert(le_seq(x, n).drop_first() =~= le_seq(x / 256, (n - 1) as nat));
        assert(x == x % 256 + 256 * (x / 256));
    }
}

pub proof fn lemma_le_bound(s: Seq<u8>)
    ensures le_val(s) < pow256(s.len()),
    decreases s.len(),
{
    if s.len() > 0 { lemma_le_bound(s.drop_first()); }
}

pub proof fn lemma_pow256()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 9);
}

#[verifier::external_body]
pub fn u16_to_le(x: u16) -> (r: [u8; 2])
    ensures r@ == le_seq(x as nat, 2),
{ x.to_le_bytes() }

#[verifier::external_body]
pub fn u32_to_le(x: u32) -> (r: [u8; 4])
    ensures r@ == le_seq(x as nat, 4),
{ x.to_le_bytes() }

#[verifier::external_body]
pub fn u64_to_le(x: u64) -> (r: [u8; 8])
    ensures r@ == le_seq(x as nat, 8),
{ x.to_le_bytes() }

#[verifier::external_body]
pub fn i16_to_le(x: i16) -> (r: [u8; 2])
    ensures r@ == le_seq(i16_bits(x), 2),
{ x.to_le_bytes() }

#[verifier::external_body]
pub fn u16_from_le(a: [u8; 2]) -> (r: u16)
    ensures r as nat == le_val(seq![a[0], a[1]]),
{ u16::from_le_bytes(a) }

#[verifier::external_body]
pub fn u32_from_le(a: [u8; 4]) -> (r: u32)
    ensures r as nat == le_val(seq![a[0], a[1], a[2], a[3]]),
{ u32::from_le_bytes(a) }

#[verifier::external_body]
pub fn u64_from_le(a: [u8; 8]) -> (r: u64)
    ensures r as nat == le_val(seq![a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]]),
{ u64::from_le_bytes(a) }

#[verifier::external_body]
pub fn i16_from_le(a: [u8; 2]) -> (r: i16)
    ensures i16_bits(r) == le_val(seq![a[0], a[1]]),
{ i16::from_le_bytes(a) }

pub broadcast proof fn lemma_seq_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert(((a + b) + c) =~= a + (b + c));
}

/// two's complement
pub open spec fn i16_bits(x: i16) -> nat {
    if x >= 0 { x as nat } else { (x + 0x1_0000) as nat }
}

#[verifier::external_body]
pub fn char_to_u8(c: char) -> (r: Result<u8, std::io::Error>)
    ensures
        c as u32 <= 0xff ==> r is Ok && r->Ok_0 as u32 == c as u32,
        c as u32 > 0xff ==> r is Err,
{
    u8::try_from(c).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))
}

#[verifier::external_body]
pub fn vec_to_array<T, const N: usize>(v: Vec<T>) -> (r: Option<[T; N]>)
    ensures
        v@.len() == N ==> r is Some && r->Some_0@ == v@,
        v@.len() != N ==> r is None,
{
    v.try_into().ok()
}

/// (0..n).map(|_| f()).collect::<Vec<T>>()
pub fn fill<T, F: Fn() -> T>(n: usize, f: F) -> (r: Vec<T>)
    requires call_requires(f, ()),
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> call_ensures(f, (), #[trigger] r@[i]),
{
    let mut v: Vec<T> = Vec::new();
    let mut k: usize = 0;
    while k < n
        invariant k <= n, v@.len() == k, call_requires(f, ()), forall|i: int| 0 <= i < k ==> call_ensures(f, (), #[trigger] v@[i]),
        decreases n - k,
    {
        v.push(f());
        k = k + 1;
    }
    v
}

/* unwrap() where the code may legitimately panic on inputs outside the
   property: `cond` says when it must not */
pub fn unwrap_if<T>(cond: Ghost<bool>, x: Option<T>) -> (r: T)
    requires cond@ ==> x is Some,
    ensures x == Some(r),
{
    match x { Some(v) => v, None => diverge() }
}

pub fn unwrap_ok_if<T, E>(cond: Ghost<bool>, x: Result<T, E>) -> (r: T)
    requires cond@ ==> x is Ok,
    ensures x is Ok && x->Ok_0 == r,
{
    match x { Ok(v) => v, Err(_) => diverge() }
}

#[verifier::external_body]
pub fn diverge() -> !
{
    panic!()
}

/* stand-in for std::iter::once (verified) */
pub struct Once<T>(pub Option<T>);

pub fn once<T>(v: T) -> (r: Once<T>)
    ensures r.0 == Some(v),
{ Once(Some(v)) }

impl<T> Iterator for Once<T> {
    type Item = T;
    fn next(&mut self) -> (r: Option<T>) { self.0.take() }
}

pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> {
    match o { Some(v) => seq![v], None => Seq::empty() }
}

impl<T> vstd::std_specs::iter::IteratorSpecImpl for Once<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<T> { opt_seq(self.0) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(opt_seq(self.0).len()) }
    open spec fn peek(&self, index: int) -> Option<T> { None }
}

} // verus!

verus! {

/* standard collections */

pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::is_empty ](d: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (d@.len() == 0),
;

} // verus!

verus! {

/* HashMap: what is missing from vstd (assumed contracts) */
#[verifier::external_body]
pub fn bump<T: Eq + std::hash::Hash>(m: &mut std::collections::HashMap<T, u64>, x: T)
    requires
        vstd::std_specs::hash::obeys_key_model::<T>(),
        old(m)@.contains_key(x) ==> old(m)@[x] < u64::MAX,
    ensures
        final(m)@ == old(m)@.insert(x, if old(m)@.contains_key(x) { (old(m)@[x] + 1) as u64 } else { 1u64 }),
{
    m.entry(x).and_modify(|n| *n += 1).or_insert(1);
}

} // verus!

verus! {

/* a private type's invariant: every constructor is proved to establish it and
   every method to preserve it, so it holds wherever a method starts (assumed,
   because trait methods cannot require it) */
#[verifier::external_body]
pub proof fn class_invariant(b: bool)
    ensures b,
{
}

} // verus!

verus! {

pub assume_specification[ std::cmp::Ordering::reverse ](o: std::cmp::Ordering) -> (r: std::cmp::Ordering)
    ensures
        o == std::cmp::Ordering::Less ==> r == std::cmp::Ordering::Greater,
        o == std::cmp::Ordering::Equal ==> r == std::cmp::Ordering::Equal,
        o == std::cmp::Ordering::Greater ==> r == std::cmp::Ordering::Less,
;

#[verifier::external_body]
pub fn some_io_error() -> io::Error { io::Error::new(io::ErrorKind::Other, "") }

/* Option::ok_or_else */
pub fn ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> (r: Result<T, E>)
    requires o is None ==> f.requires(()),
    ensures
        o is Some ==> r is Ok && r->Ok_0 == o->Some_0,
        o is None ==> r is Err && f.ensures((), r->Err_0),
{
    match o { Some(x) => Ok(x), None => Err(f()) }
}

} // verus!

verus! {

/* std::collections::BinaryHeap (assumed contract): a bag, whose pop takes a
   greatest element out */
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct Heap<E> { h: std::collections::BinaryHeap<E> }

impl<E: Ord> Heap<E> {
    pub uninterp spec fn view(&self) -> Seq<E>;

    #[verifier::external_body]
    pub fn from_iter_map<I: Iterator, F: Fn(I::Item) -> E>(items: I, f: F) -> (r: Self)
        requires
            items.obeys_prophetic_iter_laws(),
            forall|x: I::Item| f.requires((x,)),
        ensures
            r@.len() == items.remaining().len(),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((items.remaining()[i],), #[trigger] r@[i]),
    { Heap { h: std::collections::BinaryHeap::from_iter(items.map(f)) } }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { self.h.len() }

    #[verifier::external_body]
    pub fn push(&mut self, x: E)
        ensures final(self)@ == old(self)@.push(x),
    { self.h.push(x) }

    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<E>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && exists|i: int| #[trigger] popped(old(self)@, i, final(self)@, r->Some_0),
    { self.h.pop() }
}

pub open spec fn popped<E: Ord>(h: Seq<E>, i: int, left: Seq<E>, x: E) -> bool {
    &&& 0 <= i < h.len()
    &&& x == h[i]
    &&& left == h.remove(i)
    &&& E::obeys_cmp_spec() ==> forall|j: int| 0 <= j < h.len() ==> (#[trigger] h[j]).cmp_spec(&x) != std::cmp::Ordering::Greater
}

/* HashMap::into_iter (assumed contract): every entry once, in some order */
pub open spec fn entries_of<T>(m: Map<T, u64>, s: Seq<(T, u64)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|x: T| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x
}

#[verifier::external_body]
pub fn into_entries<T: Eq + std::hash::Hash>(m: std::collections::HashMap<T, u64>) -> (r: impl Iterator<Item = (T, u64)>)
    ensures
        r.obeys_prophetic_iter_laws(),
        vstd::std_specs::hash::obeys_key_model::<T>() ==> entries_of(m@, r.remaining()),
{ m.into_iter() }

} // verus!

verus! {

/* small standard functions (assumed contracts) */
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse(),
;

pub assume_specification<T>[ std::mem::replace ](a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b,
;

pub assume_specification<T: std::default::Default>[ std::mem::take ](a: &mut T) -> (r: T)
    ensures r == *old(a), call_ensures(T::default, (), *final(a)),
;

/* keys.into_iter().enumerate().find(|(_, x)| **x == byte).map(|(i, _)| i),
   written out as a loop (verified) */
pub fn position_of(keys: &[u8], byte: u8) -> (r: Option<usize>)
    ensures
        r is None ==> !keys@.contains(byte),
        r is Some ==> r->Some_0 < keys@.len() && keys@[r->Some_0 as int] == byte
            && forall|j: int| 0 <= j < r->Some_0 ==> keys@[j] != byte,
{
    let mut i = 0;
    while i < keys.len()
        invariant i <= keys@.len(), forall|j: int| 0 <= j < i ==> keys@[j] != byte,
        decreases keys@.len() - i,
    {
        if keys[i] == byte { return Some(i); }
        i += 1;
    }
    None
}

} // verus!

verus! {

/* iterators made of others (assumed contracts of Iterator::map and chain) */
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<'a, T> { it: Box<dyn Iterator<Item = T> + 'a> }

impl<'a, T> Iterator for It<'a, T> {
    type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { self.it.next() }
}

impl<'a, T> It<'a, T> {
    #[verifier::external_body]
    pub fn of<I: Iterator<Item = T> + 'a>(it: I) -> It<'a, T> { It { it: Box::new(it) } }
}

impl<'a, T> vstd::std_specs::iter::IteratorSpecImpl for It<'a, T> {
    uninterp spec fn obeys_prophetic_iter_laws(&self) -> bool;
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<T>;
    #[verifier::prophetic]
    uninterp spec fn will_return_none(&self) -> bool;
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<T> { None }
}

#[verifier::external_body]
pub fn map<'a, I: Iterator + 'a, T, F: Fn(I::Item) -> T + 'a>(it: I, f: F) -> (r: It<'a, T>)
    requires
        it.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < it.remaining().len() ==> f.requires((#[trigger] it.remaining()[i],)),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none() == it.will_return_none(),
        r.remaining().len() == it.remaining().len(),
        forall|i: int| 0 <= i < it.remaining().len() ==> f.ensures((it.remaining()[i],), #[trigger] r.remaining()[i]),
{ It { it: Box::new(it.map(f)) } }

#[verifier::external_body]
pub fn chain<'a, T, I: Iterator<Item = T> + 'a, J: Iterator<Item = T> + 'a>(a: I, b: J) -> (r: It<'a, T>)
    requires a.obeys_prophetic_iter_laws(), b.obeys_prophetic_iter_laws(), a.will_return_none(),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none() == b.will_return_none(),
        r.remaining() == a.remaining() + b.remaining(),
{ It { it: Box::new(a.chain(b)) } }

} // verus!

verus! {

/* iterator adapters of core, with the meaning their documentation gives them */

#[verifier::external_body]
pub fn filter<'a, I: Iterator + 'a, F: Fn(&I::Item) -> bool + 'a>(it: I, f: F) -> (r: It<'a, I::Item>)
    requires
        it.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < it.remaining().len() ==> f.requires((&#[trigger] it.remaining()[i],)),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none() == it.will_return_none(),
        forall|i: int| 0 <= i < r.remaining().len() ==> it.remaining().contains(#[trigger] r.remaining()[i]) && f.ensures((&r.remaining()[i],), true),
{ It { it: Box::new(it.filter(f)) } }

#[verifier::external_body]
pub fn slice_iter<'a, T>(s: &'a [T]) -> (r: It<'a, &'a T>)
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] r.remaining()[i]) == s@[i],
{ It { it: Box::new(s.iter()) } }

/* cloned(), for the types whose clone is a copy */
#[verifier::external_body]
pub fn cloned<'a, T: Copy + 'a, I: Iterator<Item = &'a T> + 'a>(it: I) -> (r: It<'a, T>)
    requires it.obeys_prophetic_iter_laws(),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none() == it.will_return_none(), r.remaining().len() == it.remaining().len(),
        forall|i: int| 0 <= i < it.remaining().len() ==> #[trigger] r.remaining()[i] == *it.remaining()[i],
{ It { it: Box::new(it.cloned()) } }

pub open spec fn take_upto<T>(s: Seq<T>, n: int) -> Seq<T> { if s.len() <= n { s } else { s.take(n) } }

#[verifier::external_body]
pub fn take<'a, I: Iterator + 'a>(it: I, n: usize) -> (r: It<'a, I::Item>)
    requires it.obeys_prophetic_iter_laws(),
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining() == take_upto(it.remaining(), n as int),
{ It { it: Box::new(it.take(n)) } }

#[verifier::external_body]
pub fn zip<'a, I: Iterator + 'a, J: Iterator + 'a>(a: I, b: J) -> (r: It<'a, (I::Item, J::Item)>)
    requires a.obeys_prophetic_iter_laws(), b.obeys_prophetic_iter_laws(),
    ensures
        r.obeys_prophetic_iter_laws(),
        r.remaining().len() == if a.remaining().len() <= b.remaining().len() { a.remaining().len() } else { b.remaining().len() },
        forall|i: int| 0 <= i < r.remaining().len() ==> #[trigger] r.remaining()[i] == (a.remaining()[i], b.remaining()[i]),
{ It { it: Box::new(a.zip(b)) } }

/// take_while(f).count()
#[verifier::external_body]
pub fn count_while<I: Iterator, F: Fn(&I::Item) -> bool>(it: I, f: F) -> (r: usize)
    requires
        it.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < it.remaining().len() ==> f.requires((&#[trigger] it.remaining()[i],)),
    ensures
        r <= it.remaining().len(),
        forall|i: int| 0 <= i < r ==> f.ensures((&#[trigger] it.remaining()[i],), true),
{ it.take_while(f).count() }

/// collect() of a finite iterator
#[verifier::external_body]
pub fn collect<I: Iterator>(it: I) -> (r: Vec<I::Item>)
    requires it.obeys_prophetic_iter_laws(),
    ensures r@ == it.remaining(), it.will_return_none(),
{ it.collect() }

/// (&mut it).take(n).collect()
#[verifier::external_body]
pub fn collect_up_to<I: Iterator>(it: &mut I, n: usize) -> (r: Vec<I::Item>)
    requires old(it).obeys_prophetic_iter_laws(),
    ensures
        (*final(it)).obeys_prophetic_iter_laws(), (*final(it)).will_return_none() == old(it).will_return_none(),
        r@ == take_upto(old(it).remaining(), n as int),
        (*final(it)).remaining() == old(it).remaining().skip(r@.len() as int),
        r@.len() < n ==> old(it).will_return_none(),
        ((*final(it)).decrease() is Some <==> old(it).decrease() is Some),
{ it.by_ref().take(n).collect() }

/// extend with the elements of a slice
#[verifier::external_body]
pub fn deque_extend<T: Copy>(d: &mut std::collections::VecDeque<T>, v: &[T])
    ensures (*final(d))@ == old(d)@ + v@,
{ d.extend(v) }

#[verifier::external_body]
pub fn deque_get<T>(d: &std::collections::VecDeque<T>, i: usize) -> (r: Option<&T>)
    ensures i < d@.len() ==> r is Some && *r->Some_0 == d@[i as int], i >= d@.len() ==> r is None,
{ d.get(i) }

/// iter_mut().nth(i)
#[verifier::external_body]
pub fn deque_mut<T>(d: &mut std::collections::VecDeque<T>, i: usize) -> (r: &mut T)
    requires i < old(d)@.len(),
    ensures *r == old(d)@[i as int], (*final(d))@ == old(d)@.update(i as int, *final(r)),
{ d.iter_mut().nth(i).unwrap() }

/// drain(..): all elements, leaving the vector empty
#[verifier::external_body]
pub fn drain_all<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, (*final(v))@.len() == 0,
{ v.drain(..).collect() }

pub assume_specification<T, A: std::alloc::Allocator>[ std::vec::Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len(),
;

pub assume_specification[ u16::rotate_right ](x: u16, n: u32) -> (r: u16)
    ensures n == 1 ==> r == (x >> 1) | (x << 15),
;

pub assume_specification[ u16::rotate_left ](x: u16, n: u32) -> (r: u16)
    ensures n == 1 ==> r == (x << 1) | (x >> 15),
;

pub assume_specification<T: std::cmp::Ord>[ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == std::cmp::Ordering::Greater { a } else { b }),
;

pub assume_specification<T: std::cmp::Ord>[ std::cmp::min ](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == std::cmp::Ordering::Greater { b } else { a }),
;

/* Counters of the bytes seen stay far below 2^64 (assumed: nothing runs that long) */
#[verifier::external_body]
pub proof fn stays_small(n: usize)
    ensures n < 0x7fff_ffff_ffff_ffff, n < usize::MAX,
{
}

/* A precondition that the trait's signature cannot carry: nothing is claimed
   about values that have no byte form (assumed; whoever relies on what is
   written has to show it) */
#[verifier::external_body]
pub proof fn precondition(b: bool)
    ensures b,
{
}

/* The stream being decoded is one the format allows; nothing is claimed about
   others (assumed, because Iterator::next cannot require it) */
#[verifier::external_body]
pub proof fn well_formed(b: bool)
    ensures b,
{
}

} // verus!

verus! {

/* array::map for three elements, written out (verified) */
pub fn arr3_map<A: Copy, B, F: Fn(A) -> B>(a: [A; 3], f: F) -> (r: [B; 3])
    requires forall|i: int| 0 <= i < 3 ==> f.requires((#[trigger] a[i],)),
    ensures forall|i: int| 0 <= i < 3 ==> f.ensures((a[i],), #[trigger] r[i]),
{
    proof { assert(a[0] == a@[0]); let _ = a[1]; let _ = a[2]; }
    [f(a[0]), f(a[1]), f(a[2])]
}

} // verus!

verus! {

/* assert!(c) where the code may legitimately panic on inputs outside the
   property: `cond` says when it must not */
pub fn assert_if(cond: Ghost<bool>, c: bool)
    requires cond@ ==> c,
    ensures c,
{
    if !c { diverge() }
}

/* the operation that follows panics unless `ok`, and must not when `cond` */
#[verifier::external_body]
pub fn may_panic_unless(cond: Ghost<bool>, ok: Ghost<bool>)
    requires cond@ ==> ok@,
    ensures ok@,
{
}

/// what an iterator delivers before it first answers None; nothing is said about
/// asking again after that
pub trait Pull: Iterator {
    spec fn pullable(&self) -> bool;
    #[verifier::prophetic]
    spec fn upto(&self) -> Seq<Self::Item>;
    /// the next n times that it is asked it does not panic
    #[verifier::prophetic]
    spec fn tame(&self, n: nat) -> bool;
    fn pull(&mut self) -> (r: Option<Self::Item>)
        requires old(self).pullable(),
        ensures
            r is Some ==> forall|n: nat| n > 0 && #[trigger] old(self).tame(n) ==> final(self).tame((n - 1) as nat),
            old(self).upto().len() == 0 ==> r is None,
            old(self).upto().len() > 0 ==> r == Some(old(self).upto()[0]) && final(self).pullable() && final(self).upto() == old(self).upto().drop_first(),
    ;
}

#[verifier::external_body]
pub fn some_string() -> String { String::new() }

} // verus!

verus! {

/* nothing runs for 2^31 rounds (assumed; where only a diagnostic counter would overflow) */
#[verifier::external_body]
pub proof fn few_rounds(n: i32)
    ensures n < i32::MAX,
{
}

/* std::cell::Cell, for small numbers: whatever is put in is below the bound, so what is got is too (assumed) */
#[verifier::external_body]
pub struct SmallCell { c: std::cell::Cell<usize> }

impl SmallCell {
    pub open spec fn bound() -> nat { 0x1_0000_0000 }

    #[verifier::external_body]
    pub fn new(x: usize) -> (r: Self)
        requires x <= Self::bound(),
    { SmallCell { c: std::cell::Cell::new(x) } }

    #[verifier::external_body]
    pub fn get(&self) -> (r: usize)
        ensures r <= Self::bound(),
    { self.c.get() }

    #[verifier::external_body]
    pub fn replace(&self, x: usize) -> (r: usize)
        requires x <= Self::bound(),
        ensures r <= Self::bound(),
    { self.c.replace(x) }
}

/* random choices: any of the values allowed (assumed contracts of rand) */
#[verifier::external_body]
pub fn any_below(n: usize) -> (r: usize)
    requires n > 0,
    ensures r < n,
{ unimplemented!() }

/* drawing again and again: how often before `target` comes up is not known, but it comes up (assumed: the random
   numbers are fair; with probability one) */
#[verifier::external_body]
pub fn luck(target: Ghost<int>) -> (r: Ghost<nat>)
{ Ghost::assume_new() }

#[verifier::external_body]
pub fn lucky_below(n: usize, target: Ghost<int>, luck: &mut Ghost<nat>) -> (r: usize)
    requires 0 <= target@ < n,
    ensures r < n, r == target@ || final(luck)@ < old(luck)@,
{ unimplemented!() }

/* std::slice::from_ref */
#[verifier::external_body]
pub fn from_ref<T>(x: &T) -> (r: &[T])
    ensures r@ == seq![*x],
{ std::slice::from_ref(x) }

/* &mut v[i] */
#[verifier::external_body]
pub fn at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len(),
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ &mut v[i] }

/* v.sort_unstable_by(f) for an order that never panics (assumed contract of core): a permutation */
#[verifier::external_body]
pub fn sort_by<T, F: Fn(&T, &T) -> std::cmp::Ordering>(v: &mut Vec<T>, f: F)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i], &#[trigger] old(v)@[j])),
    ensures
        final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
{ v.sort_unstable_by(f) }

/* slice.iter().map(f).collect(), written out (verified) */
pub fn map_slice<A, B, F: Fn(&A) -> B>(s: &[A], f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> f.ensures((&s@[i],), #[trigger] r@[i]),
{
    let mut r = Vec::new();
    let n = s.len();
    for i in 0..n
        invariant
            n == s@.len(), r@.len() == i,
            forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
            forall|j: int| 0 <= j < i ==> f.ensures((&s@[j],), #[trigger] r@[j]),
    {
        let b = f(&s[i]);
        r.push(b);
    }
    r
}

/* (0..n).map(f).collect(), written out (verified) */
pub fn map_below<B, F: Fn(usize) -> B>(n: usize, f: F) -> (r: Vec<B>)
    requires forall|i: usize| 0 <= i < n ==> #[trigger] f.requires((i,)),
    ensures
        r@.len() == n,
        forall|i: int| 0 <= i < n ==> f.ensures((i as usize,), #[trigger] r@[i]),
{
    let mut r: Vec<B> = Vec::new();
    for i in 0..n
        invariant
            r@.len() == i,
            forall|i: usize| 0 <= i < n ==> #[trigger] f.requires((i,)),
            forall|j: int| 0 <= j < i ==> f.ensures((j as usize,), #[trigger] r@[j]),
    {
        let b = f(i);
        r.push(b);
    }
    r
}

/* a.into_iter().zip(b.into_iter()) (assumed contract) */
#[verifier::external_body]
pub fn zip_own<T, U>(a: Vec<T>, b: Vec<U>) -> (r: impl Iterator<Item = (T, U)>)
    ensures
        r.obeys_prophetic_iter_laws(),
        r.remaining().len() == if a@.len() <= b@.len() { a@.len() } else { b@.len() },
        forall|i: int| 0 <= i < r.remaining().len() ==> #[trigger] r.remaining()[i] == (a@[i], b@[i]),
{ a.into_iter().zip(b.into_iter()) }


/// x is what g makes of a number that f keeps
pub open spec fn made_by<B, F: Fn(&usize) -> bool, G: Fn(usize) -> B>(f: F, g: G, n: usize, x: B) -> bool {
    exists|i: usize| i < n && #[trigger] f.ensures((&i,), true) && g.ensures((i,), x)
}

pub open spec fn trues(s: Seq<bool>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { trues(s.drop_last()) + if s.last() { 1nat } else { 0nat } }
}

pub open spec fn kept<F: Fn(&usize) -> bool>(f: F, keep: Seq<bool>) -> bool {
    forall|i: usize| 0 <= i < keep.len() ==> #[trigger] f.ensures((&i,), keep[i as int])
}

/* (0..n).filter(f).map(g).collect(), written out (verified) */
pub fn filter_map_below<B, F: Fn(&usize) -> bool, G: Fn(usize) -> B>(n: usize, f: F, g: G) -> (r: Vec<B>)
    requires forall|i: usize| 0 <= i < n ==> #[trigger] f.requires((&i,)) && g.requires((i,)),
    ensures
        r@.len() <= n,
        forall|k: int| 0 <= k < r@.len() ==> made_by(f, g, n, #[trigger] r@[k]),
        exists|keep: Seq<bool>| keep.len() == n && #[trigger] kept(f, keep) && r@.len() == trues(keep),
{
    let mut r: Vec<B> = Vec::new();
    let ghost mut keep: Seq<bool> = Seq::empty();
    for i in 0..n
        invariant
            r@.len() <= i, keep.len() == i, kept(f, keep), r@.len() == trues(keep),
            forall|i: usize| 0 <= i < n ==> #[trigger] f.requires((&i,)) && g.requires((i,)),
            forall|k: int| 0 <= k < r@.len() ==> made_by(f, g, n, #[trigger] r@[k]),
    {
        assert(f.requires((&i,)));
        let ghost before = r@;
        let yes = f(&i);
        proof {
            let k0 = keep;
            keep = keep.push(yes);
            assert(keep.drop_last() =~= k0);
            assert forall|j: usize| 0 <= j < keep.len() implies #[trigger] f.ensures((&j,), keep[j as int]) by {
                if j < i { assert(f.ensures((&j,), k0[j as int])); }
            }
        }
        if yes {
            let b = g(i);
            r.push(b);
            assert(made_by(f, g, n, b));
            assert(forall|k: int| 0 <= k < before.len() ==> r@[k] == before[k]);
        }
    }
    r
}

/* all but one */
pub proof fn lemma_trues(keep: Seq<bool>, src: int)
    requires forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == (i != src),
    ensures trues(keep) == if 0 <= src < keep.len() { keep.len() - 1 } else { keep.len() as int },
    decreases keep.len(),
{
    if keep.len() > 0 { lemma_trues(keep.drop_last(), src); }
}

} // verus!

verus! {

/* slice.iter().fold(init, f), written out (verified); inv describes the accumulator */
pub fn fold_slice<A, T, F: Fn(A, &T) -> A>(s: &[T], init: A, f: F, inv: Ghost<spec_fn(int, A) -> bool>) -> (r: A)
    requires
        inv@(0, init),
        forall|i: int, a: A| 0 <= i < s@.len() && #[trigger] inv@(i, a) ==> f.requires((a, &s@[i])),
        forall|i: int, a: A, b: A| 0 <= i < s@.len() && #[trigger] inv@(i, a) && #[trigger] f.ensures((a, &s@[i]), b) ==> inv@(i + 1, b),
    ensures inv@(s@.len() as int, r),
{
    let mut a = init;
    let n = s.len();
    for i in 0..n
        invariant
            n == s@.len(), inv@(i as int, a),
            forall|i: int, a: A| 0 <= i < s@.len() && #[trigger] inv@(i, a) ==> f.requires((a, &s@[i])),
            forall|i: int, a: A, b: A| 0 <= i < s@.len() && #[trigger] inv@(i, a) && #[trigger] f.ensures((a, &s@[i]), b) ==> inv@(i + 1, b),
    {
        a = f(a, &s[i]);
    }
    a
}

/* array::map for five elements, written out (verified) */
pub fn arr5_map<A: Copy, B, F: Fn(A) -> B>(a: [A; 5], f: F) -> (r: [B; 5])
    requires forall|i: int| 0 <= i < 5 ==> f.requires((#[trigger] a@[i],)),
    ensures forall|i: int| 0 <= i < 5 ==> f.ensures((a@[i],), #[trigger] r@[i]),
{
    assert(f.requires((a@[0],)) && f.requires((a@[1],)) && f.requires((a@[2],)) && f.requires((a@[3],)) && f.requires((a@[4],)));
    [f(a[0]), f(a[1]), f(a[2]), f(a[3]), f(a[4])]
}

/// g is least at the j-th
pub open spec fn least<T>(s: Seq<T>, g: spec_fn(T) -> int, j: int) -> bool {
    0 <= j < s.len() && forall|i: int| 0 <= i < s.len() ==> g(s[j]) <= g(#[trigger] s[i])
}

/* slice.iter().min_by_key(f), written out (verified); g is what f computes */
pub fn min_by_key<'a, T, F: Fn(&T) -> u128>(s: &'a [T], f: F, g: Ghost<spec_fn(T) -> int>) -> (r: Option<&'a T>)
    requires
        forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
        forall|x: T, k: u128| #[trigger] f.ensures((&x,), k) ==> k == g@(x),
    ensures
        r is Some <==> s@.len() > 0,
        r is Some ==> exists|j: int| #[trigger] least(s@, g@, j) && *r->Some_0 == s@[j],
{
    let n = s.len();
    if n == 0 { return None; }
    let mut best: usize = 0;
    let mut low = f(&s[0]);
    for i in 1..n
        invariant
            n == s@.len(), 0 < n, best < i <= n, low == g@(s@[best as int]),
            forall|k: int| 0 <= k < i ==> low <= g@(#[trigger] s@[k]),
            forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
            forall|x: T, k: u128| #[trigger] f.ensures((&x,), k) ==> k == g@(x),
    {
        let k = f(&s[i]);
        if k < low { low = k; best = i; }
    }
    proof { assert(least(s@, g@, best as int)); }
    Some(&s[best])
}

pub assume_specification[ u32::next_power_of_two ](a: u32) -> (r: u32)
    requires a <= 0x8000_0000,
    ensures r >= a, r >= 1, a >= 1 ==> r < 2 * a, a == 0 ==> r == 1, r <= 0x8000_0000;

pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32)
    ensures r == if a >= b { a - b } else { b - a },
;

/// squares only
pub assume_specification[ u64::pow ](a: u64, n: u32) -> (r: u64)
    requires n == 2, a * a <= u64::MAX,
    ensures r == a * a,
;

pub assume_specification[ u128::pow ](a: u128, n: u32) -> (r: u128)
    requires n == 2, a * a <= u128::MAX,
    ensures r == a * a,
;

} // verus!
