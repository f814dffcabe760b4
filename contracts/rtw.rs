// Assumed contract of std::io::Write, for every writer
use vstd::prelude::*;
use std::io;

verus! {

/// what becomes of a borrowed writer when it is given back, and what it borrows in turn
pub ghost struct Fut { pub written: Seq<u8>, pub infallible: bool, pub under: Option<Box<Fut>>, pub then: Option<Box<Fut>> }

/* On success exactly the given bytes were appended; on failure the contract
   says nothing about what the writer holds from then on, so a function that is
   proved to have written certain bytes cannot have ignored a failure.  `fut` names what the
   writer's final destination will hold once a borrowed writer is given back. */

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;

    /// everything this writer has accepted so far
    spec fn written(&self) -> Seq<u8>;

    #[verifier::prophetic]
    spec fn fut(&self) -> Fut;

    /// how many times it has been flushed
    spec fn flushes(&self) -> nat;

    /// the writer never fails (an in-memory buffer)
    spec fn infallible(&self) -> bool;

    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), io::Error>)
        ensures
            r is Ok ==> final(self).written() == old(self).written() + buf@ && final(self).flushes() == old(self).flushes(),
            final(self).fut() == old(self).fut(),
            old(self).infallible() ==> r is Ok && final(self).infallible(),
    ;

    fn flush(&mut self) -> (r: Result<(), io::Error>)
        ensures
            r is Ok ==> final(self).written() == old(self).written() && final(self).flushes() == old(self).flushes() + 1,
            final(self).fut() == old(self).fut(),
            old(self).infallible() ==> r is Ok && final(self).infallible(),
    ;
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoErr(io::Error);

/* std: a borrowed writer writes to what it borrows */
impl<W: io::Write> WriteSpecImpl for &mut W {
    open spec fn written(&self) -> Seq<u8> { (**self).written() }
    #[verifier::prophetic]
    open spec fn fut(&self) -> Fut {
        Fut { written: (*final(*self)).written(), infallible: (*final(*self)).infallible(), under: Some(Box::new((**self).fut())), then: Some(Box::new((*final(*self)).fut())) }
    }
    open spec fn infallible(&self) -> bool { (**self).infallible() }
    open spec fn flushes(&self) -> nat { (**self).flushes() }
}

/* std: a deque is an in-memory byte buffer, written at the back */
impl<A: std::alloc::Allocator> WriteSpecImpl for std::collections::VecDeque<u8, A> {
    open spec fn written(&self) -> Seq<u8> { self@ }
    #[verifier::prophetic]
    open spec fn fut(&self) -> Fut { Fut { written: Seq::empty(), infallible: true, under: None, then: None } }
    open spec fn infallible(&self) -> bool { true }
    uninterp spec fn flushes(&self) -> nat;
}

} // verus!
