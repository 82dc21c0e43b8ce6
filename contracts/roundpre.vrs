//@@ include common
//@@ path anyhow::Result = AnyResult
//@@ path anyhow::Error = AnyErr
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path bulloak_syntax =
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path hir =
//@@ path result = core::result
//@@ path crate::scaffold =
//@@ path crate::check =
//@@ path bulloak_foundry::config =
//@@ path crate =

verus! {
use std::path::PathBuf;
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include hirtypes
//@@ include emitspec
//@@ include linespec
//@@ include text
//@@ include names
//@@ include hirspec
//@@ include combspec
//@@ struct crates/foundry/src/config.rs Config
}
//@@ include frontspec
pub mod combiner {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
//@@ type crates/foundry/src/hir/combiner.rs Result
//@@ struct crates/foundry/src/hir/combiner.rs Combiner
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ include combview
}
}
//@@ include planspec
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression, Parameter, ParameterList, Annotation,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier, EnumDefinition, StructDefinition, EventDefinition, ErrorDefinition,
    VariableDefinition, TypeDefinition, Using,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include findspec
//@@ include fmtspec
//@@ include printspec
}
}
use pt::SourceUnit;
verus! {
use sol::*;
//@@ include plainspec
//@@ include scaffoldspec
#[verifier::external_body] pub struct Comments;
//@@ enum crates/foundry/src/check/location.rs Location sub=Filename->String,Line->usize
//@@ enum crates/foundry/src/check/violation.rs ViolationKind
//@@ struct crates/foundry/src/check/violation.rs Violation
//@@ struct crates/foundry/src/check/context.rs Context
//@@ include wellspec
//@@ include checkspec
//@@ include paths
//@@ include worldspec
//@@ include parsedspec
//@@ include ctxspec
//@@ strconst crates/foundry/src/check/violation.rs SEPARATOR banner
//@@ include orderspec
//@@ const crates/foundry/src/constants.rs DEFAULT_SOL_VERSION
//@@ include fixspec
//@@ include outspec
//@@ include clibits
pub uninterp spec fn pretty(s: Seq<char>, u: SourceUnit, c: Comments) -> Option<Seq<char>>;
//@@ struct crates/bulloak/src/scaffold.rs Scaffold
//@@ struct crates/bulloak/src/check.rs Check
//@@ struct crates/bulloak/src/cli.rs Cli
//@@ enum crates/bulloak/src/cli.rs Commands
//@@ include cfgspec
//@@ include runspec
//@@ include violationspec
//@@ include checkrunspec
//@@ fn crates/foundry/src/scaffold/mod.rs scaffold tryconv stub from=scaffold
//@@ end
impl Context {
//@@ fn crates/foundry/src/check/context.rs Context::new stub from=context
//@@ end
}
pub struct StructuralMatcher;
impl StructuralMatcher {
//@@ fn crates/foundry/src/check/rules/structural_match.rs StructuralMatcher::check stub from=check
//@@ end
}
