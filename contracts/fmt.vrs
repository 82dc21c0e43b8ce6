//@@ include common
//@@ method join = vx_join
//@@ streq identifier.name

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ include text
//@@ include names
//@@ include hirtypes
//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
}
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression, Parameter, ParameterList, Annotation,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier, EnumDefinition, StructDefinition, EventDefinition, ErrorDefinition,
    VariableDefinition, TypeDefinition, Using,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include fmtspec
impl Base {
//@@ fn crates/foundry/src/sol/fmt.rs Base::name
    requires self.name.identifiers@.len() > 0,
    ensures r@ == self.name.identifiers@[0].name@,
//@@ end
}
//@@ struct crates/foundry/src/sol/fmt.rs Formatter
impl Formatter {
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::new
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::emit immut
    requires forall|i: int| 0 <= i < pt.0@.len() ==> printable(#[trigger] pt.0@[i]),
    ensures r@ == clean(t_unit(pt)),
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::visit_source_unit immut
    requires forall|i: int| 0 <= i < source_unit.0@.len() ==> printable(#[trigger] source_unit.0@[i]),
    ensures r matches Ok(s) && s@ == t_unit(*source_unit),
//@@ loop 0
    invariant
        vx_it0.seq().len() == source_unit.0@.len(), forall|i: int| 0 <= i < source_unit.0@.len() ==> *(#[trigger] vx_it0.seq()[i]) == source_unit.0@[i],
        forall|i: int| 0 <= i < source_unit.0@.len() ==> printable(#[trigger] source_unit.0@[i]),
        views(parts@) =~= t_parts(source_unit.0@).take(vx_it0.index@ as int),
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::visit_source_unit_part immut
    requires printable(*part),
    ensures r matches Ok(s) && s@ == t_part(*part),
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::visit_contract immut
    requires named_bases(contract.base@),
    ensures r matches Ok(s) && s@ == t_contract(*contract),
//@@ at start
    broadcast use {axiom_string_to_string, axiom_show_identifier};
    proof { reveal_strlit(" "); reveal_strlit("{"); reveal_strlit("}"); }
//@@ loop 0
    invariant
        vx_it0.seq().len() == contract.base@.len(), forall|i: int| 0 <= i < contract.base@.len() ==> *(#[trigger] vx_it0.seq()[i]) == contract.base@[i],
        views(bases@) =~= t_bases(contract.base@).take(vx_it0.index@ as int), named_bases(contract.base@),
//@@ loop 1
    invariant
        vx_it1.seq().len() == contract.parts@.len(), forall|i: int| 0 <= i < contract.parts@.len() ==> *(#[trigger] vx_it1.seq()[i]) == contract.parts@[i],
        views(parts@) =~= t_cparts(contract.parts@).take(vx_it1.index@ as int),
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::visit_contract_part immut
    ensures r matches Ok(s) && s@ == t_cpart(*part),
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::visit_function immut
    ensures r matches Ok(s) && s@ == t_fn(*function),
//@@ at start
    proof { reveal_strlit(" "); reveal_strlit("("); reveal_strlit(")"); reveal_strlit(";"); }
//@@ loop 0
    invariant
        vx_it0.seq().len() == function.params@.len(), forall|i: int| 0 <= i < function.params@.len() ==> *(#[trigger] vx_it0.seq()[i]) == function.params@[i],
        views(params@) =~= t_params(function.params, vx_it0.index@ as int),
//@@ closure 0
    |attr: &FunctionAttribute| -> (r: String) ensures r@ == show(*attr)
//@@ loop 1
    invariant
        vx_it1.seq().len() == function.returns@.len(), forall|i: int| 0 <= i < function.returns@.len() ==> *(#[trigger] vx_it1.seq()[i]) == function.returns@[i],
        views(returns@) =~= t_params(function.returns, vx_it1.index@ as int),
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::visit_statement immut
    ensures r matches Ok(s) && s@ == t_stmt(*statement),
    decreases *statement
//@@ at start
    proof { reveal_strlit("{\n"); reveal_strlit("\n"); reveal_strlit("}"); }
    broadcast use lemma_blocks;
//@@ loop 0
    invariant
        vx_it0.seq().len() == statements@.len(), forall|i: int| 0 <= i < statements@.len() ==> *(#[trigger] vx_it0.seq()[i]) == statements@[i],
        views(stmts@) =~= t_stmts(statements@).take(vx_it0.index@ as int),
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::visit_expr immut
    ensures r matches Ok(s) && s@ == t_expr(*expression),
//@@ end
}
//@@ fn crates/foundry/src/sol/fmt.rs cleanup_comments
    ensures r@ == clean(source@),
//@@ at start
    broadcast use {axiom_re_valid, axiom_re_replaced, axiom_string_to_string};
//@@ end
}
}
fn main() {}
