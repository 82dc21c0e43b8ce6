//@@ include common
//@@ vmethod find_map = vx_find_map
//@@ vmethod rev = vx_rev
//@@ vmethod map_or_else = vx_map_or_else
//@@ vmethod map_or = vx_map_or
//@@ vmethod as_ref = vx_same
//@@ method starts_with = vx_starts_with
//@@ vmethod find = vx_sfind
//@@ method loc = vx_loc
//@@ vslice children
//@@ method join = vx_join
//@@ mmethod replace_range = vx_replace_range
//@@ path forge_fmt::parse = parse
//@@ path hir::hir::Hir = Hir
//@@ path hir::Hir = Hir
//@@ path hir::hir::ContractDefinition = hir::ContractDefinition

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
use std::path::PathBuf;
//@@ include span
//@@ include text
//@@ include names
//@@ include hirtypes
//@@ include iters
}
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include findspec
//@@ fn crates/foundry/src/sol/mod.rs find_contract stub from=finding
//@@ end
//@@ fn crates/foundry/src/sol/mod.rs find_matching_fn stub from=finding
//@@ end
}
}
use pt::SourceUnit;
use sol::{find_contract, find_matching_fn};
verus! {
//@@ include search
//@@ include wellspec
//@@ include searching
//@@ include wholelemmas
//@@ include joining
//@@ struct crates/foundry/src/config.rs Config
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == prefixed(s@, p@) { s.starts_with(p) }

#[verifier::external_body] pub struct Comments;
#[verifier::external_body] #[derive(Debug)] pub struct Diagnostic;
//@@ struct crates/foundry/src/check/context.rs Context
//@@ strconst crates/foundry/src/check/violation.rs SEPARATOR banner
//@@ include orderspec
//@@ include parsing
/// std's `replace_range` (trusted)
#[verifier::external_body]
pub fn vx_replace_range(s: &mut String, r: std::ops::Range<usize>, t: &str)
    requires is_off(old(s)@, r.start as int), is_off(old(s)@, r.end as int), r.start <= r.end,
    ensures final(s)@ == patch(old(s)@, r.start as int, r.end as int, t@),
{ unimplemented!() }
pub assume_specification [<str as std::borrow::ToOwned>::clone_into] (s: &str, t: &mut String) ensures final(t)@ == s@;
/// std's `HashSet<usize>` (trusted)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: K }
impl HashSet<usize> {
    pub uninterp spec fn view(&self) -> Set<usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
}
//@@ fn crates/foundry/src/check/violation.rs find_function_end stub from=locate
//@@ end
impl Context {
//@@ fn crates/foundry/src/check/context.rs Context::from_parsed
    ensures r.src@ == parsed.src@, r.pt == parsed.pt, r.comments == parsed.comments, r.tree == self.tree, r.sol == self.sol, r.hir == self.hir, r.cfg == self.cfg,
//@@ end
}
//@@ include orderlemmas
//@@ fn crates/foundry/src/check/violation.rs fix_order chains sub=ContractDefinition->pt::ContractDefinition
    requires contract_placed(**contract_sol, ctx.src@), contract_sol.parts@.len() > 0,
        pt_of(ordered(**contract_sol, hvs(contract_hir.children@), ctx.src@)) is Some,
    ensures
        r.tree == ctx.tree, r.sol == ctx.sol, r.hir == ctx.hir, r.cfg == ctx.cfg,
        r.src@ == ordered(**contract_sol, hvs(contract_hir.children@), ctx.src@),
        parsed_as(r.src@, r.pt), r.comments == notes_of(r.src@),
//@@ at start
    hide(blanked); hide(contract_placed); hide(chosen); hide(jn); hide(rep); hide(fn_end); hide(whole); hide(hv); hide(chosen_ok); hide(is_off); hide(placed); hide(ordered); hide(fn_text);
    let ghost c = **contract_sol;
    let ghost s = ctx.src@;
    let ghost parts = c.parts@;
    let ghost kids = hvs(contract_hir.children@);
    let ghost l = chosen(kids, parts, kids.len() as int);
    proof { lemma_chosen(kids, parts, kids.len() as int); lemma_none_chosen(kids, parts); }
    assert(contract_sol.parts.len() <= usize::MAX);
//@@ loop 0
    invariant
        parts == contract_sol.parts@, kids == hvs(contract_hir.children@), parts.len() <= usize::MAX,
        vx_it0.seq() == contract_hir.children@.map_values(|x: Hir| &x) || true,
        vx_out@.len() == chosen(kids, parts, vx_it0.index@ as int).len(),
        forall|i: int| 0 <= i < vx_out@.len() ==> *(#[trigger] vx_out@[i]) == fn_at(parts, chosen(kids, parts, vx_it0.index@ as int)[i]),
        forall|m: usize| #[trigger] seen@.contains(m) <==> chosen(kids, parts, vx_it0.index@ as int).contains(m as int),
//@@ at loop 0 start
    let ghost n = vx_it0.index@ as int;
    proof { lemma_choosing(kids, parts, n, *vx_x); assert(kids[n] == hv(*vx_x)); }
//@@ loop 1
    invariant
        c == **contract_sol, s == ctx.src@, parts == c.parts@, contract_placed(c, s), chosen_ok(l, parts),
        fns@.len() == l.len(), forall|i: int| 0 <= i < fns@.len() ==> *(#[trigger] fns@[i]) == fn_at(parts, l[i]),
        scratch@ == blanked(l, vx_it1.index@ as int, parts, s),
        views(source@) == fn_texts(l.take(vx_it1.index@ as int), parts, s),
//@@ at loop 1 start
    let ghost k = vx_it1.index@ as int;
    proof { assert(*vx_it1.seq()[k] == fns@[k]); lemma_blanking(c, l, k, s); }
//@@ at loop 1 end
    assert(views(source@) =~= fn_texts(l.take(k + 1), parts, s));
//@@ at after loop 1
    let ghost (a, b) = (part_loc(parts[0])->File_1 as int, c.loc->File_2 - 1);
    let ghost body = blanked(l, l.len() as int, parts, s);
    let ghost jnd = jn(fn_texts(l, parts, s), "\n\n"@);
    proof { assert(l.take(l.len() as int) =~= l); lemma_bounds(c, l, s); }
//@@ at let source#1
    proof { lemma_joined(c, kids, s); }
    assert(source@ =~= joined(c, kids, s));
//@@ end
}
fn main() {}
