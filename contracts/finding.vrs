//@@ include common
//@@ vmethod find_map = vx_find_map
//@@ vmethod enumerate = vx_enumerate
//@@ path hir::FunctionDefinition = hir::FunctionDefinition
//@@ path hir::FunctionTy = hir::FunctionTy
//@@ streq name

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ include text
//@@ include names
//@@ include hirtypes
//@@ include iters
}
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include findspec
//@@ include search
/// derive(Clone)
impl Clone for ContractDefinition { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Identifier { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

pub open spec fn as_contract<'a>() -> spec_fn(&'a SourceUnitPart) -> Option<Box<ContractDefinition>> {
    |p: &'a SourceUnitPart| match *p { SourceUnitPart::ContractDefinition(c) => Some(c), _ => None }
}
proof fn lemma_contract<'a>(v: Seq<SourceUnitPart>, w: Seq<&'a SourceUnitPart>, i: int)
    requires 0 <= i <= v.len(), w.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> *(#[trigger] w[j]) == v[j],
    ensures first_some(w, as_contract(), i) == (if contract_at(v, i) < v.len() { as_contract()(&v[contract_at(v, i)]) } else { None }),
        i <= contract_at(v, i) <= v.len(), contract_at(v, i) < v.len() ==> v[contract_at(v, i)] is ContractDefinition,
    decreases v.len() - i,
{ if i < v.len() { assert(*w[i] == v[i]); lemma_contract(v, w, i + 1); } }
broadcast proof fn lemma_contract0<'a>(w: Seq<&'a SourceUnitPart>)
    ensures #[trigger] first_some(w, as_contract(), 0) == ({ let v = derefs(w); if contract_at(v, 0) < v.len() { as_contract()(&v[contract_at(v, 0)]) } else { None } }),
        0 <= contract_at(derefs(w), 0) <= w.len(), contract_at(derefs(w), 0) < w.len() ==> derefs(w)[contract_at(derefs(w), 0)] is ContractDefinition,
{ lemma_contract(derefs(w), w, 0); }
//@@ fn crates/foundry/src/sol/mod.rs find_contract
    ensures match r {
        Some(c) => contract_at(pt.0@, 0) < pt.0@.len() && pt.0@[contract_at(pt.0@, 0)] == SourceUnitPart::ContractDefinition(c),
        None => contract_at(pt.0@, 0) == pt.0@.len(),
    },
//@@ closure 0
    |part: &SourceUnitPart| -> (r: Option<Box<ContractDefinition>>) ensures r == as_contract()(part)
//@@ at start
    broadcast use {lemma_contract0, lemma_derefs};
    proof { assert(tr(as_contract())); }
//@@ end
//@@ fn crates/foundry/src/sol/mod.rs fn_types_match
    ensures r == (if ty_hir is Modifier { ty_sol is Modifier } else { ty_sol is Function }),
//@@ end
//@@ fn crates/foundry/src/sol/mod.rs fns_match
    ensures r == fn_matches(fv(*fn_hir), ContractPart::FunctionDefinition(Box::new(*fn_sol))),
//@@ closure 0
    |vx_p0: Identifier| -> (r: bool) ensures r == (vx_p0.name@ == fn_hir.identifier@ && (if fn_hir.ty is Modifier { fn_sol.ty is Modifier } else { fn_sol.ty is Function }))
//@@ end
pub open spec fn as_match<'a>(h: SHir) -> spec_fn((usize, &'a ContractPart)) -> Option<(usize, &'a FunctionDefinition)> {
    |p: (usize, &'a ContractPart)| match *p.1 { ContractPart::FunctionDefinition(f) => if fn_matches(h, *p.1) { Some((p.0, &*f)) } else { None }, _ => None }
}
proof fn lemma_match<'a>(v: Seq<ContractPart>, w: Seq<(usize, &'a ContractPart)>, h: SHir, i: int)
    requires 0 <= i <= v.len(), w.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> (#[trigger] w[j]).0 == j && *w[j].1 == v[j],
    ensures first_some(w, as_match(h), i) == (if match_at(v, h, i) < v.len() { as_match(h)((match_at(v, h, i) as usize, &v[match_at(v, h, i)])) } else { None }),
        i <= match_at(v, h, i) <= v.len(), match_at(v, h, i) < v.len() ==> fn_matches(h, v[match_at(v, h, i)]),
    decreases v.len() - i,
{ if i < v.len() { assert(*w[i].1 == v[i]); lemma_match(v, w, h, i + 1); } }
broadcast proof fn lemma_match0<'a>(w: Seq<(usize, &'a ContractPart)>, s: Seq<&'a ContractPart>, h: SHir)
    requires #[trigger] numbered(w, s), w.len() <= usize::MAX,
    ensures #[trigger] first_some(w, as_match(h), 0) == ({ let v = derefs(s); if match_at(v, h, 0) < v.len() { as_match(h)((match_at(v, h, 0) as usize, &v[match_at(v, h, 0)])) } else { None } }),
        match_at(derefs(s), h, 0) < s.len() ==> fn_matches(h, derefs(s)[match_at(derefs(s), h, 0)]),
        0 <= match_at(derefs(s), h, 0) <= s.len(),
{ assert forall|j: int| 0 <= j < w.len() implies (#[trigger] w[j]).0 == j && *w[j].1 == derefs(s)[j] by {} lemma_match(derefs(s), w, h, 0); }
//@@ fn crates/foundry/src/sol/mod.rs find_matching_fn
    ensures match r {
        Some((i, f)) => i == first_match(contract_sol.parts@, fv(*fn_hir)) && matched(contract_sol.parts@, fv(*fn_hir))
            && contract_sol.parts@[i as int] == ContractPart::FunctionDefinition(Box::new(*f)),
        None => !matched(contract_sol.parts@, fv(*fn_hir)),
    },
//@@ closure 0
    |vx_p0: (usize, &'a ContractPart)| -> (r: Option<(usize, &'a FunctionDefinition)>) ensures r == as_match(fv(*fn_hir))(vx_p0)
//@@ at start
    broadcast use {lemma_match0, lemma_derefs};
    proof { assert(tr(as_match(fv(*fn_hir)))); }
//@@ end
}
}
fn main() {}
