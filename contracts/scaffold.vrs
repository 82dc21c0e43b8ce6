//@@ include common
//@@ path sol::Translator = sol::Translator
//@@ cell pos identifier_mode current
//@@ mono T=Tokenizer
//@@ mono P=Parser
//@@ byval TokenizerI
//@@ byval ParserI
//@@ life ParserI 't
//@@ path anyhow::Result = AnyResult
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path bulloak_syntax =
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path hir =
//@@ path result = core::result
//@@ path crate =

verus! {
use std::path::PathBuf;
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include hirtypes
//@@ include text
//@@ include names
//@@ include hirspec
//@@ include combspec
//@@ struct crates/foundry/src/config.rs Config
}
//@@ include frontspec
pub mod combiner {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
//@@ type crates/foundry/src/hir/combiner.rs Result
//@@ struct crates/foundry/src/hir/combiner.rs Combiner
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ include combview
impl Combiner {
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::new stub from=combiner
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::combine stub from=combiner
//@@ end
}
}
}
//@@ include planspec


verus! {
//@@ include treelemmas
//@@ fn crates/foundry/src/hir/mod.rs translate stub from=plan
//@@ end
//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
}
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression, Parameter, ParameterList, Annotation,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier, EnumDefinition, StructDefinition, EventDefinition, ErrorDefinition,
    VariableDefinition, TypeDefinition, Using,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include fmtspec
//@@ include printspec
//@@ include printlemmas
//@@ struct crates/foundry/src/sol/translator.rs Translator
pub open spec fn u_is(u: SourceUnit, h: SHir, t: Translator) -> bool { unit_is(u, h, t.sol_version@, t.with_forge_std, t.skip_modifiers) }
impl Translator {
//@@ fn crates/foundry/src/sol/translator.rs Translator::new stub from=sol
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs Translator::translate stub from=sol
//@@ end
}
//@@ struct crates/foundry/src/sol/fmt.rs Formatter
impl Formatter {
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::new stub from=fmt
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::emit immut stub from=fmt
//@@ end
}
}
}
verus! {
use sol::*;
//@@ include linelemmas

//@@ include scaffoldspec
pub broadcast proof fn lemma_emits(s: Seq<char>, skip: bool, v: Seq<char>, test: bool, sm: bool)
    requires plan_of(s, skip) is Plan, roots_plain(s) || texts_of(s).len() == 1, no_q(v),
    ensures #![trigger plan_of(s, skip), s_unit(plan_of(s, skip)->Plan_0, v, test, sm, true)]
        clean(s_unit(plan_of(s, skip)->Plan_0, v, test, sm, true)) == s_unit(plan_of(s, skip)->Plan_0, v, test, sm, false),
        names_ok(plan_of(s, skip)->Plan_0), comments_ok(plan_of(s, skip)->Plan_0),
{ lemma_plan_fine(s, skip); lemma_unveil(plan_of(s, skip)->Plan_0, v, test, sm); }
pub broadcast proof fn lemma_plan_root(s: Seq<char>, skip: bool)
    requires #[trigger] plan_of(s, skip) is Plan,
    ensures plan_of(s, skip)->Plan_0 is Root,
{
    lemma_no_bad(texts_of(s), 0);
    if texts_of(s).len() == 1 { lemma_not_bad(texts_of(s), 0, 0); lemma_root_fine(texts_of(s)[0], skip); }
}
pub broadcast proof fn lemma_t_units(u: pt::SourceUnit, h: SHir, v: Seq<char>, test: bool, skip: bool)
    requires #[trigger] unit_is(u, h, v, test, skip),
    ensures t_unit(u) == s_unit(h, v, test, skip, true), forall|i: int| 0 <= i < u.0@.len() ==> printable(#[trigger] u.0@[i]),
{ lemma_t_unit(u, h, v, test, skip); }
//@@ fn crates/foundry/src/scaffold/mod.rs scaffold tryconv
    ensures scaffold_is(r, text@, *cfg),
//@@ closure 0
    |err: FmtErr| -> (e: AnyErr) ensures e is Msg
//@@ at start
    hide(plan_of); hide(t_unit); hide(s_unit); hide(clean); hide(err_of); hide(combiner::c_err); hide(planned_trees); hide(texts_of); hide(unit_is); hide(roots_plain); hide(printable); hide(tree_of); hide(merged); hide(bad_text); hide(first_bad); hide(san); hide(names_ok); hide(comments_ok);
    broadcast use {lemma_emits, lemma_plan_root, lemma_t_units};
//@@ end
}
fn main() {}
