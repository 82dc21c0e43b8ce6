// ---------------------------------------------------------------- how a parse tree is printed
pub open spec fn jn(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { jn(v.drop_last(), sep) + sep + v.last() } }
/// std's `join` of strings (trusted)
#[verifier::external_body]
pub fn vx_join(v: &Vec<String>, sep: &str) -> (r: String)
    ensures forall|w: Seq<Seq<char>>| w =~= views(v@) ==> r@ == #[trigger] jn(w, sep@),
{ v.join(sep) }
