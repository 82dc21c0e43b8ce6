//@@ include common
//@@ path anyhow::Result = AnyResult
//@@ path anyhow::Error = AnyErr
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path bulloak_syntax =
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path crate::hir =
//@@ path hir =
//@@ path result = core::result
//@@ path fmt::Formatter = VxFormatter
//@@ path fmt::Result = FmtResult
//@@ path crate =
//@@ vmethod downcast_ref = vx_downcast::<>
//@@ method safe_unwrap = vx_safe_unwrap
//@@ vmethod replace = vx_replace
//@@ vmethod into = vx_text
//@@ vmethod yellow = vx_paint
//@@ vmethod blue = vx_paint

verus! {
use std::path::PathBuf;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include hirtypes
//@@ include text
//@@ include names
//@@ include iters
//@@ include hirspec
//@@ include combspec
//@@ struct crates/foundry/src/config.rs Config
}
//@@ include frontspec
pub mod combiner {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ include combview
impl Error {
//@@ fn crates/foundry/src/hir/combiner.rs Error::kind
    ensures *r == self.kind,
//@@ end
}
}
}
//@@ include planspec
//@@ include pt
use pt::SourceUnit;
pub mod saying {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ enum crates/foundry/src/check/location.rs Location sub=Filename->String,Line->usize
//@@ enum crates/foundry/src/check/violation.rs ViolationKind
//@@ struct crates/foundry/src/check/violation.rs Violation
//@@ include violationspec
//@@ litfacts lits tree solidity
//@@ include formatter
impl VxDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
/// colours
pub struct Painted { pub x: u8 }
impl VxDisp for Painted { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_paint<T>(x: T) -> (r: Painted) { unimplemented!() }
/// std's `str::replace` (nothing is assumed about the result)
#[verifier::external_body]
pub fn vx_replace<T>(s: T, a: &str, b: &str) -> (r: String) { unimplemented!() }
pub fn vx_text<T: VxDisp>(x: T) -> (r: String) ensures r@ == x.disp() { x.vx_disp() }
/// forge-fmt's `SafeUnwrap`, std's and solang's Display of an identifier (trusted)
#[verifier::external_body]
pub fn vx_safe_unwrap(x: &Option<pt::Identifier>) -> (r: &pt::Identifier) requires x is Some, ensures *r == x->Some_0 { unimplemented!() }
impl VxDisp for &pt::Identifier { open spec fn disp(&self) -> Seq<char> { self.name@ } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
/// anyhow's `downcast_ref`
pub trait VxDown: Sized { spec fn within(e: &AnyErr) -> Option<Self>; fn vx_within(e: &AnyErr) -> (r: Option<&Self>) ensures match r { Some(x) => Self::within(e) == Some(*x), None => Self::within(e) is None }; }
impl VxDown for tokenizer::Error {
    open spec fn within(e: &AnyErr) -> Option<Self> { match *e { AnyErr::Tok(x) => Some(x), _ => None } }
    fn vx_within(e: &AnyErr) -> (r: Option<&Self>) { match e { AnyErr::Tok(x) => Some(x), _ => None } }
}
impl VxDown for parser::Error {
    open spec fn within(e: &AnyErr) -> Option<Self> { match *e { AnyErr::Parse(x) => Some(x), _ => None } }
    fn vx_within(e: &AnyErr) -> (r: Option<&Self>) { match e { AnyErr::Parse(x) => Some(x), _ => None } }
}
impl VxDown for combiner::Error {
    open spec fn within(e: &AnyErr) -> Option<Self> { match *e { AnyErr::Comb(x) => Some(x), _ => None } }
    fn vx_within(e: &AnyErr) -> (r: Option<&Self>) { match e { AnyErr::Comb(x) => Some(x), _ => None } }
}
impl VxDown for semantics::Errors {
    open spec fn within(e: &AnyErr) -> Option<Self> { match *e { AnyErr::Sem(x) => Some(x), _ => None } }
    fn vx_within(e: &AnyErr) -> (r: Option<&Self>) { match e { AnyErr::Sem(x) => Some(x), _ => None } }
}
pub fn vx_downcast<T: VxDown>(e: &AnyErr) -> (r: Option<&T>) ensures match r { Some(x) => T::within(e) == Some(*x), None => T::within(e) is None } { T::vx_within(e) }
impl VxDisp for tokenizer::ErrorKind { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for &tokenizer::ErrorKind { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_disp(&self) -> (r: String) { (**self).vx_disp() } }
impl VxDisp for parser::ErrorKind { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for &parser::ErrorKind { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_disp(&self) -> (r: String) { (**self).vx_disp() } }
impl VxDisp for combiner::ErrorKind { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for &combiner::ErrorKind { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_disp(&self) -> (r: String) { (**self).vx_disp() } }
impl tokenizer::Error {
//@@ fn crates/syntax/src/tokenizer.rs Error::kind sub=ErrorKind->tokenizer::ErrorKind
    ensures *r == self.kind,
//@@ end
}
impl parser::Error {
//@@ fn crates/syntax/src/parser.rs Error::kind sub=ErrorKind->parser::ErrorKind
    ensures *r == self.kind,
//@@ end
}
//@@ fn crates/foundry/src/check/violation.rs format_frontend_error
    ensures mentions(r@, culprit(*error)),
//@@ at start
    hide(mentions);
    broadcast use mention_lemmas;
    proof { lits(); }
//@@ end
impl ViolationKind {
//@@ fn crates/foundry/src/check/violation.rs ViolationKind::is_fixable
//@@ end
//@@ fn crates/foundry/src/check/violation.rs ViolationKind::help ret=Option<String>
//@@ end
//@@ fn crates/foundry/src/check/violation.rs ViolationKind::#error name=shown
    requires nameable(*self),
    ensures explains(*self, r@),
//@@ at start
    hide(mentions);
    broadcast use mention_lemmas;
//@@ end
}
/// what Display prints (thiserror's expansion, proved above)
impl VxDisp for ViolationKind { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) ensures nameable(*self) ==> explains(*self, r@) { unimplemented!() } }
impl Location {
//@@ fn crates/foundry/src/check/location.rs Location::file
    ensures r@ == (match *self { Location::Code(f, _) => f@, Location::File(f) => f@ }),
//@@ end
//@@ fn crates/foundry/src/check/location.rs Location::fmt
    ensures r is Ok ==> final(f)@ == old(f)@ + place(*self),
//@@ end
}
/// what Display prints (proved above)
impl VxDisp for Location { open spec fn disp(&self) -> Seq<char> { place(*self) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl Violation {
//@@ fn crates/foundry/src/check/violation.rs Violation::fmt
    requires nameable(self.kind),
    ensures r is Ok ==> exists|w: Seq<char>| final(f)@ == old(f)@ + w && #[trigger] reports(*self, w),
//@@ at start
    hide(mentions);
    broadcast use {mention_lemmas, lemma_add_assoc, lemma_skip_add};
//@@ at tail
    proof { if vx_r is Ok { let w = f@.skip(old(f)@.len() as int); assert(reports(*self, w)); } }
//@@ end
}
}
}
fn main() {}
