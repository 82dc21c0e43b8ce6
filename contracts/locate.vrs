//@@ include common
//@@ vmethod find_map = vx_find_map
//@@ vmethod rev = vx_rev
//@@ vmethod map_or_else = vx_map_or_else
//@@ vmethod map_or = vx_map_or
//@@ vmethod as_ref = vx_same
//@@ method starts_with = vx_starts_with
//@@ vmethod find = vx_sfind
//@@ method loc = vx_loc
//@@ vslice children
//@@ path hir::hir::ContractDefinition = hir::ContractDefinition

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ include text
//@@ include names
//@@ include hirtypes
//@@ include iters
}
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include findspec
//@@ fn crates/foundry/src/sol/mod.rs find_contract stub from=finding
//@@ end
//@@ fn crates/foundry/src/sol/mod.rs find_matching_fn stub from=finding
//@@ end
}
}
use pt::SourceUnit;
use sol::{find_contract, find_matching_fn};
verus! {
//@@ include search
//@@ include wellspec
//@@ include searching
//@@ include locatelemmas
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == prefixed(s@, p@) { s.starts_with(p) }

//@@ fn crates/foundry/src/check/violation.rs find_outside_comments
    requires is_off(src@, start as int),
    ensures match r {
        Some(p) => outside(src@, idx(src@, start as int), needle) >= 0 && p == off(src@, outside(src@, idx(src@, start as int), needle)),
        None => outside(src@, idx(src@, start as int), needle) < 0,
    },
//@@ closure 0
    |end: usize| -> (r: usize) requires end < usize::MAX - 8 ensures r == end + 4
//@@ at start
    broadcast use lemma_idx_b;
    proof {
        reveal_strlit("//"); reveal_strlit("/*"); reveal_strlit("*/");
        assert("//"@ =~= seq!['/', '/']); assert("/*"@ =~= seq!['/', '*']); assert("*/"@ =~= seq!['*', '/']);
    }
//@@ at loop 0 start
    let ghost k = idx(src@, pos as int);
    proof {
        assert(pos == off(src@, k) && 0 <= k <= src@.len());
        assert(src.spec_bytes().len() == blen(src@));
        if k < src@.len() { lemma_step(src@, k); assert(src@.skip(k)[0] == src@[k]); }
    }
//@@ loop 0
    invariant
        is_off(src@, pos as int),
        outside(src@, idx(src@, pos as int), needle) == outside(src@, idx(src@, start as int), needle),
    ensures
        outside(src@, idx(src@, start as int), needle) < 0,
    decreases blen(src@) - pos
//@@ end
//@@ fn crates/foundry/src/check/violation.rs find_function_end
    requires whole(*fn_sol, src@),
    ensures r == fn_end(*fn_sol, src@),
//@@ closure 0
    |pos: usize| -> (r: usize) requires pos < usize::MAX ensures r == pos + 1
//@@ at start
    broadcast use lemma_idx_b;
    proof {
        assert(src.spec_bytes().len() == blen(src@));
        let e = fn_loc(*fn_sol)->File_2 as int;
        lemma_outside(src@, idx(src@, e), ';');
    }
//@@ end
//@@ fn crates/foundry/src/check/violation.rs find_contract_body_start
    requires contract_placed(*contract_sol, src@),
    ensures r == body_start(*contract_sol, src@),
//@@ at start
    broadcast use lemma_idx_b;
    assert(src.spec_bytes().len() == blen(src@));
    proof { lemma_outside(src@, idx(src@, header_end(*contract_sol)), '{'); }
//@@ end
pub open spec fn as_prev<'a, 'b>(parts: Seq<pt::ContractPart>) -> spec_fn(&'b Hir) -> Option<(usize, &'a pt::FunctionDefinition)> {
    |x: &'b Hir| match *x {
        Hir::FunctionDefinition(f) => if sol::matched(parts, fv(f)) {
            Some((sol::first_match(parts, fv(f)) as usize, &*(parts[sol::first_match(parts, fv(f))]->FunctionDefinition_0)))
        } else { None },
        _ => None,
    }
}
proof fn lemma_prev<'a, 'b>(w: Seq<&'b Hir>, kids: Seq<SHir>, c: pt::ContractDefinition, s: Seq<char>, j: int)
    requires 0 <= j <= w.len() <= kids.len(), forall|k: int| 0 <= k < w.len() ==> hv(*(#[trigger] w[k])) == kids[w.len() - 1 - k],
    ensures ({ let f: Option<(usize, &'a pt::FunctionDefinition)> = first_some(w, as_prev(c.parts@), j); let g = gap(c, kids, w.len() - j, s);
        match f { Some((i, f)) => g == fn_end(*f, s) && whole_in(*f, c.parts@), None => g == body_start(c, s) } }),
    decreases w.len() - j,
{
    broadcast use lemma_hv;
    if j < w.len() {
        let h = as_prev::<'a, 'b>(c.parts@);
        assert(hv(*w[j]) == kids[w.len() - 1 - j]);
        if h(w[j]) is Some {
            let m = sol::first_match(c.parts@, hv(*w[j]));
            lemma_match_at(c.parts@, hv(*w[j]), 0);
            assert(c.parts@[m] is FunctionDefinition);
        } else { lemma_prev(w, kids, c, s, j + 1); }
    }
}
proof fn lemma_match_at(v: Seq<pt::ContractPart>, h: SHir, i: int)
    requires 0 <= i <= v.len(),
    ensures i <= sol::match_at(v, h, i) <= v.len(), sol::match_at(v, h, i) < v.len() ==> sol::fn_matches(h, v[sol::match_at(v, h, i)]),
    decreases v.len() - i,
{ if i < v.len() { lemma_match_at(v, h, i + 1); } }
pub open spec fn whole_in(f: pt::FunctionDefinition, parts: Seq<pt::ContractPart>) -> bool {
    exists|m: int| 0 <= m < parts.len() && #[trigger] parts[m] is FunctionDefinition && *(parts[m]->FunctionDefinition_0) == f
}
//@@ fn crates/foundry/src/check/violation.rs get_insertion_offset
    requires contract_placed(*contract_sol, src@), index <= contract_hir.children@.len(),
    ensures r == gap(*contract_sol, hvs(contract_hir.children@), index as int, src@),
//@@ closure 0
    |child: &Hir| -> (r: Option<(usize, &pt::FunctionDefinition)>) ensures r == as_prev(contract_sol.parts@)(child)
//@@ closure 1
    || -> (r: usize) requires contract_placed(*contract_sol, src@) ensures r == body_start(*contract_sol, src@)
//@@ closure 2
    |vx_p0: (usize, &pt::FunctionDefinition)| -> (r: usize) requires whole(*vx_p0.1, src@) ensures r == fn_end(*vx_p0.1, src@)
//@@ at start
    let ghost kids = hvs(contract_hir.children@);
    let ghost c = *contract_sol;
    let ghost g = gap(c, kids, index as int, src@);
    proof {
        assert(tr(as_prev(c.parts@)));
        assert forall|w: Seq<&Hir>| w.len() == index && (forall|k: int| 0 <= k < w.len() ==> *(#[trigger] w[k]) == contract_hir.children@[index - 1 - k])
            implies (match #[trigger] first_some(w, as_prev(c.parts@), 0) { Some((_, f)) => g == fn_end(*f, src@) && whole(*f, src@), None => g == body_start(c, src@) }) by {
            assert forall|k: int| 0 <= k < w.len() implies hv(*(#[trigger] w[k])) == kids[w.len() - 1 - k] by {}
            lemma_prev(w, kids, c, src@, 0);
        }
    }
//@@ end
}
fn main() {}
