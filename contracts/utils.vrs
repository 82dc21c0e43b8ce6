//@@ include common
//@@ method split_whitespace = vx_split_ws
//@@ method replace = vx_replace
//@@ method is_xid_continue = vx_xid
//@@ method to_string = vx_disp_of
//@@ vmethod collect::<String> = vx_collect_string

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include text
//@@ include names
#[verifier::external_body]
pub fn vx_xid(c: &char) -> (r: bool) ensures r == xid_continue(*c) { unimplemented!() }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExU(core::char::ToUppercase);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExL(core::char::ToLowercase);
pub uninterp spec fn upv(u: core::char::ToUppercase) -> Seq<char>;
pub uninterp spec fn lowv(u: core::char::ToLowercase) -> Seq<char>;
pub assume_specification [char::to_uppercase] (c: char) -> (r: core::char::ToUppercase) ensures upv(r) == up_char(c);
pub assume_specification [char::to_lowercase] (c: char) -> (r: core::char::ToLowercase) ensures lowv(r) == low_char(c);
impl VxDisp for core::char::ToUppercase {
    open spec fn disp(&self) -> Seq<char> { upv(*self) }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { self.to_string() }
}
impl VxDisp for core::char::ToLowercase {
    open spec fn disp(&self) -> Seq<char> { lowv(*self) }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { self.to_string() }
}
pub fn vx_disp_of<T: VxDisp>(x: &T) -> (r: String) ensures r@ == x.disp() { x.vx_disp() }
pub assume_specification<'a> [core::str::Chars::<'a>::as_str] (c: &core::str::Chars<'a>) -> (r: &'a str)
    ensures r@ == c.remaining();

//@@ fn crates/syntax/src/utils.rs upper_first_letter
    ensures r@ == cap(s@),
//@@ closure 0
|first: core::char::ToUppercase| -> (r: String) ensures r@ == upv(first) + c.remaining()
//@@ end
//@@ fn crates/syntax/src/utils.rs lower_first_letter
    ensures r@ == uncap(s@),
//@@ closure 0
|first: core::char::ToLowercase| -> (r: String) ensures r@ == lowv(first) + c.remaining()
//@@ end

pub open spec fn dash(c: char) -> bool { c == '-' }
pub open spec fn bad(c: char) -> bool { !xid_continue(c) && c != ' ' }
proof fn lemma_san(s: Seq<char>)
    requires xid_continue('_'),
    ensures repl(repl(s, |c: char| dash(c), seq!['_']), |c: char| bad(c), Seq::<char>::empty()) =~= san(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_san(s.drop_last());
        let a = repl(s.drop_last(), |c: char| dash(c), seq!['_']);
        let x = if s.last() == '-' { '_' } else { s.last() };
        assert(repl(s, |c: char| dash(c), seq!['_']) =~= a.push(x));
        assert(a.push(x).drop_last() =~= a);
    }
}
pub axiom fn axiom_underscore() ensures xid_continue('_');

//@@ fn crates/syntax/src/utils.rs sanitize
    ensures r@ == san(identifier@),
//@@ closure 0
|c: char| -> (r: bool) ensures r == bad(c)
//@@ at start
proof {
    axiom_underscore();
    lemma_san(identifier@);
    reveal_strlit("_"); reveal_strlit("");
    assert("_"@ =~= seq!['_']);
    assert(""@ =~= Seq::<char>::empty());
}
//@@ at tail
proof {
    assert(vx_r@ == repl(repl(identifier@, |c: char| dash(c), "_"@), |c: char| bad(c), ""@));
}
//@@ end

//@@ fn crates/syntax/src/utils.rs to_pascal_case
    ensures r@ == pascal(sentence@),
//@@ at tail
proof { assert(vx_r@ == cat(caps(words(sentence@)))); }
//@@ end

//@@ fn crates/syntax/src/utils.rs repeat_str
    ensures r@ == rep(s@, n as int),
//@@ end
//@@ fn crates/syntax/src/utils.rs pluralize
    ensures r == (if count == 1 { singular } else { plural }),
//@@ end
}
fn main() {}
