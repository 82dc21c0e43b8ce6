//@@ include common
//@@ cell offset
//@@ path solang_parser::pt::Identifier = Identifier
//@@ path solang_parser::pt::Loc = Loc
//@@ vmethod any = vx_any

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
use std::path::PathBuf;
//@@ include span
//@@ include text
//@@ include names
//@@ include hirtypes
//@@ include iters
//@@ struct crates/foundry/src/config.rs Config
impl FunctionDefinition {
//@@ fn crates/foundry/src/hir/hir.rs FunctionDefinition::is_modifier
    ensures r == (self.ty is Modifier),
//@@ end
}
//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
}
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ struct crates/foundry/src/sol/translator.rs Translator
//@@ struct crates/foundry/src/sol/translator.rs TranslatorI

pub open spec fn u_is(u: SourceUnit, h: SHir, t: Translator) -> bool { unit_is(u, h, t.sol_version@, t.with_forge_std, t.skip_modifiers) }

impl Translator {
//@@ fn crates/foundry/src/sol/translator.rs Translator::new
    ensures r.sol_version@ == cfg.solidity_version@, r.with_forge_std == cfg.emit_vm_skip, r.skip_modifiers == cfg.skip_modifiers,
//@@ closure 0
    |f: bool| -> (r: bool) ensures r == f
//@@ at start
    proof { assert(tr(|b: bool| b)); }
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs Translator::translate
    requires hv(*hir) is Root,
    ensures u_is(r, hv(*hir), self),
//@@ end
}
impl TranslatorI {
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::new
    ensures r.translator == translator,
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::translate
    requires hv(*hir) is Root,
    ensures u_is(r, hv(*hir), self.translator),
//@@ at start
    broadcast use lemma_hv;
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::bump
    ensures r is File, final(self).translator == old(self).translator, final(self).offset >= old(self).offset + content@.len(),
//@@ at start
    proof { lemma_off_mono(content@, 0, content@.len() as int); }
    // the size of the text that is built: far beyond what fits in memory
    assume(self.offset + content.spec_bytes().len() <= usize::MAX);
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::translate_function_ty
    ensures r is Function == (*ty is Function), r is Modifier == (*ty is Modifier), final(self).translator == old(self).translator, final(self).offset > old(self).offset,
//@@ at start
    proof { reveal_strlit("function"); reveal_strlit("modifier"); }
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::translate_function_id
    ensures id_is(r, identifier@), r.loc is File, final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::translate_modifier
    ensures r matches FunctionAttribute::BaseOrModifier(_, b) && base_is(b, modifier@), final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::gen_function_attr chains
    ensures
        final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
        function.ty is Modifier ==> r@.len() == 0,
        function.ty is Function ==> r@.len() >= 1 && external_attr(r@[0])
            && mods_are(r@.skip(1), if function.modifiers is Some { views(function.modifiers->0@) } else { Seq::empty() }),
//@@ loop 0
    invariant
        self.translator == old(self).translator, self.offset >= old(self).offset,
        attrs@.len() == 1 + vx_it0.index@, external_attr(attrs@[0]),
        forall|i: int| 0 <= i < vx_it0.index@ ==> (#[trigger] attrs@[i + 1] matches FunctionAttribute::BaseOrModifier(_, b) && base_is(b, vx_it0.seq()[i]@)),
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::gen_modifier_statements
    ensures r@.len() == 1 && placeholder(r@[0]), final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::gen_function_statements
    ensures r matches Ok(v) && stmts_are(v@, hvs(children@)), final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
//@@ at start
    broadcast use lemma_hv;
    let ghost b = hvs(children@);
//@@ loop 0
    invariant
        b == hvs(children@), vx_it0.seq().len() == children@.len(), forall|i: int| 0 <= i < children@.len() ==> *(#[trigger] vx_it0.seq()[i]) == children@[i],
        self.translator == old(self).translator, self.offset >= old(self).offset,
        stmts@.len() == printed(b, vx_it0.index@ as int).len(),
        forall|i: int| 0 <= i < stmts@.len() ==> stmt_is(#[trigger] stmts@[i], printed(b, vx_it0.index@ as int)[i]),
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::gen_function_body
    ensures
        r is Ok, final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
        function.ty is Modifier ==> r->Ok_0@.len() == 1 && placeholder(r->Ok_0@[0]),
        function.ty is Function ==> stmts_are(r->Ok_0@, if function.children is Some { hvs(function.children->0@) } else { Seq::empty() }),
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::visit_comment
    ensures r matches Ok(s) && stmt_is(s, SHir::Comment(comment.lexeme@)), final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::visit_statement
    ensures r matches Ok(s) && stmt_is(s, SHir::Skip), final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::visit_function
    ensures r matches Ok(p) && p matches ContractPart::FunctionDefinition(f) && fn_is(*f, fv(*function)),
        final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::visit_contract
    ensures r matches Ok(p) && contract_is(p, SHir::Contract { name: contract.identifier@, kids: hvs(contract.children@) }, old(self).translator.with_forge_std, old(self).translator.skip_modifiers),
        final(self).translator == old(self).translator, final(self).offset >= old(self).offset,
//@@ at start
    broadcast use lemma_hv;
    let ghost kids = hvs(contract.children@);
    let ghost sk = self.translator.skip_modifiers;
//@@ loop 0
    invariant
        kids == hvs(contract.children@), vx_it0.seq().len() == kids.len(), forall|i: int| 0 <= i < kids.len() ==> *(#[trigger] vx_it0.seq()[i]) == contract.children@[i],
        self.translator == old(self).translator, sk == self.translator.skip_modifiers, self.offset >= old(self).offset,
        fns_are(parts@, shown(kids, vx_it0.index@ as int, sk)),
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs TranslatorI::visit_root
    ensures r matches Ok(u) && u_is(u, SHir::Root { kids: hvs(root.children@) }, old(self).translator),
//@@ at start
    broadcast use lemma_hv;
    let ghost kids = hvs(root.children@);
    let ghost tr0 = self.translator;
    let ghost k: int = if tr0.with_forge_std { 2 } else { 1 };
//@@ loop 0
    invariant
        kids == hvs(root.children@), vx_it0.seq().len() == kids.len(), forall|i: int| 0 <= i < kids.len() ==> *(#[trigger] vx_it0.seq()[i]) == root.children@[i],
        self.translator == tr0, ({
            let cs = contracts(kids, vx_it0.index@ as int);
            &&& source_unit@.len() == k + cs.len() && pragma_is(source_unit@[0], tr0.sol_version@) && (tr0.with_forge_std ==> import_is(source_unit@[1]))
            &&& forall|i: int| k <= i < source_unit@.len() ==> contract_is(#[trigger] source_unit@[i], cs[i - k], tr0.with_forge_std, tr0.skip_modifiers)
        }),
//@@ end
}
}
}
fn main() {}
