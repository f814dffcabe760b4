@@module codec::args_hufc src/codec/hufc.rs
@@only <Hufman as FromStr>
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate

@@top
use crate::codec::*;
use crate::codec::hufc::*;

@@# argument
@@top
/// the argument that names the codec
pub open spec fn spelled(s: Seq<char>) -> bool { crate::text::like(s, "hufman"@) }

@@fn <Hufman as FromStr>::from_str ret r
@@spec
    ensures r is Ok <==> spelled(s@),
@@rewrite s.eq_ignore_ascii_case("hufman") ==> crate::text::eq_ignore_ascii_case(s, "hufman") -- str method through its assumed contract
