@@module codec::args_zipc src/codec/zipc.rs
@@only <Zip as FromStr>
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate

@@top
use crate::codec::*;
use crate::codec::zipc::*;

@@# argument
@@top
/// the argument that names the codec
pub open spec fn spelled(s: Seq<char>, z: Zip) -> bool {
    crate::prs::is_call(s, "zip"@, crate::prs::one(match z { Zip::Dict => "dict"@, Zip::Back => "back"@ }))
}

pub proof fn lemma_words()
    ensures
        crate::text::letters("zip"@), "dict"@ != "back"@, "dict"@.len() > 0, "back"@.len() > 0,
{
    reveal_strlit("zip"); reveal_strlit("dict"); reveal_strlit("back");
    assert("dict"@[0] != "back"@[0]);
}

@@fn <Zip as FromStr>::from_str ret r
@@spec
    ensures
        r is Ok ==> spelled(s@, r->Ok_0),
        r is Err ==> forall|z: Zip| !spelled(s@, z),
@@start
    proof { lemma_words(); crate::text::axiom_letters("zip"@); crate::prs::lemma_once(s@); crate::prs::lemma_views(); }
