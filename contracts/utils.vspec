@@module utils src/utils.rs

@@top
use vstd::std_specs::iter::IteratorSpec;

/// how often x occurs in s
pub open spec fn occurs<T>(s: Seq<T>, x: T) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { occurs(s.drop_last(), x) + if s.last() == x { 1nat } else { 0nat } }
}

/// what a table of frequencies says
pub open spec fn is_freqs<T>(m: Map<T, u64>, s: Seq<T>) -> bool {
    &&& forall|x: T| m.contains_key(x) <==> occurs(s, x) > 0
    &&& forall|x: T| m.contains_key(x) ==> #[trigger] m[x] == occurs(s, x)
}

pub proof fn lemma_occurs<T>(s: Seq<T>, x: T)
    ensures occurs(s, x) <= s.len(), occurs(s, x) > 0 <==> s.contains(x),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_occurs(s.drop_last(), x);
        assert(s =~= s.drop_last().push(s.last()));
        if s.contains(x) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            if i < s.len() - 1 { assert(s.drop_last()[i] == x); }
        }
        if s.drop_last().contains(x) {
            let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x;
            assert(s[i] == x);
        }
        if s.last() == x { assert(s[s.len() - 1] == x); }
    }
}

@@fn count_freqs ret r
@@spec
    requires
        items.obeys_prophetic_iter_laws(),
        items.remaining().len() <= u64::MAX,
        vstd::std_specs::hash::obeys_key_model::<T>(),
    ensures
        is_freqs(r@, items.remaining()),
@@start
    let ghost all = items.remaining();
    let ghost mut done: int = 0;
    proof { assert(all.take(0) =~= Seq::<T>::empty()); assert(all.skip(0) =~= all); }
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@forwhile 0 rest
@@loop 0
    invariant
        all.len() <= u64::MAX,
        vstd::std_specs::hash::obeys_key_model::<T>(),
        rest.obeys_prophetic_iter_laws(),
        0 <= done <= all.len(),
        is_freqs(freqs@, all.take(done)),
        rest.remaining() == all.skip(done),
    ensures
        done == all.len(), is_freqs(freqs@, all.take(done)),
@@bodystart 0
    proof {
        assert(all.take(done + 1).drop_last() =~= all.take(done));
        assert(all.skip(done)[0] == all[done]);
        assert(all.skip(done).drop_first() =~= all.skip(done + 1));
        lemma_occurs(all.take(done), x);
        done = done + 1;
    }
@@rewrite freqs.entry(x).and_modify(|n| *n += 1).or_insert(1) ==> crate::rt::bump(&mut freqs, x) -- assumed contract of the entry API: the count of x goes up by one, or starts at one
@@before return freqs;
    proof { assert(all.take(all.len() as int) =~= all); }

@@fn default_array ret r
@@rewrite (0..N).map(|_| T::default()).collect::<Vec<T>>().try_into().map_err(|v: Vec<T>| v.len()).unwrap() ==> crate::rt::vec_to_array::<T, N>(crate::rt::fill(N, T::default)).unwrap() -- map over a range and collect written out as a loop; assumed contract of the conversion of a vector to an array
@@spec
    ensures forall|i: int| 0 <= i < N ==> call_ensures(T::default, (), #[trigger] r@[i]),
