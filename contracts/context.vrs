//@@ include common
//@@ cell pos identifier_mode current
//@@ mono T=Tokenizer
//@@ mono P=Parser
//@@ byval TokenizerI
//@@ byval ParserI
//@@ life ParserI 't
//@@ path anyhow::Result = AnyResult
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path bulloak_syntax =
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path hir =
//@@ path result = core::result
//@@ method to_string_lossy = vx_lossy
//@@ vmethod into_owned = vx_owned
//@@ vmethod as_ref = vx_same
//@@ method exists = vx_exists
//@@ mmethod set_extension = vx_set_ext
//@@ method to_path_buf = vx_path_buf
//@@ path anyhow::Error = AnyErr
//@@ path forge_fmt::parse = parse
//@@ path forge_fmt = 
//@@ path crate::hir::translate = translate
//@@ path crate =

verus! {
use std::path::PathBuf;
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include hirtypes
//@@ include text
//@@ include names
//@@ include hirspec
//@@ include combspec
//@@ struct crates/foundry/src/config.rs Config
}
//@@ include frontspec
pub mod combiner {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
//@@ type crates/foundry/src/hir/combiner.rs Result
//@@ struct crates/foundry/src/hir/combiner.rs Combiner
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ include combview
impl Combiner {
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::new stub from=combiner
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::combine stub from=combiner
//@@ end
}
}
}
//@@ include planspec


//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include findspec
}
}
use pt::SourceUnit;
pub mod contextunit {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include linespec
#[verifier::external_body] pub struct Comments;
//@@ enum crates/foundry/src/check/location.rs Location sub=Filename->String,Line->usize
//@@ enum crates/foundry/src/check/violation.rs ViolationKind
//@@ struct crates/foundry/src/check/violation.rs Violation
//@@ struct crates/foundry/src/check/context.rs Context
//@@ include checkspec
//@@ include paths
//@@ include worldspec
//@@ include wellspec
//@@ include parsing
//@@ include ctxspec
//@@ include treelemmas
#[verifier::external_body] pub struct Diagnostic;
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for SourceUnit { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@ const crates/foundry/src/constants.rs DEFAULT_SOL_VERSION
impl Config {
//@@ fn crates/foundry/src/config.rs Config::default
    ensures !r.emit_vm_skip, !r.skip_modifiers, r.files@.len() == 0, r.solidity_version@ == DEFAULT_SOL_VERSION@,
//@@ end
}
impl Violation {
//@@ fn crates/foundry/src/check/violation.rs Violation::new
    ensures r.kind == kind, r.location == location,
//@@ end
}
//@@ fn crates/foundry/src/hir/mod.rs translate stub from=plan
//@@ end
//@@ fn crates/foundry/src/check/context.rs get_path_with_ext
    ensures sol_path_is(r, *path, ext@),
//@@ end
//@@ fn crates/foundry/src/check/context.rs try_read_to_string
    ensures text_is(r, *path),
//@@ closure 0
    |e: IoErr| -> (r: Violation)
        ensures r.kind is FileUnreadable, vloc(r.location) == VL::In(path_text(*path))
//@@ end
broadcast proof fn lemma_plan(r: AnyResult<Hir>, s: Seq<char>)
    requires #[trigger] plan_is(r, s, false),
    ensures match r { Ok(h) => plan_of(s, false) == PL::Plan(hv(h)), Err(e) => unplannable(s, e) },
{ hide(err_of); hide(texts_of); hide(bad_text); hide(combiner::c_err); }
impl Context {
//@@ fn crates/foundry/src/check/context.rs Context::new
    ensures context_is(r, tree, *cfg),
//@@ at start
    hide(plan_is); hide(plan_of); hide(unplannable); hide(placed);
    broadcast use lemma_plan;
    proof { reveal_strlit("t.sol"); assert("t.sol"@ =~= sol_ext()); }
//@@ closure 0
    |e: AnyErr| -> (r: Violation)
        ensures vkind(r.kind) == VK::Unparsable(e), vloc(r.location) == VL::In(path_text(tree))
//@@ closure 1
    |e: Vec<Diagnostic>| -> (r: Violation)
        ensures r.kind matches ViolationKind::ParsingFailed(x) && x is Msg, vloc(r.location) == VL::In(path_text(sol))
//@@ end
}
}
}
fn main() {}
