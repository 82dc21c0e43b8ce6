//@@ include common
//@@ vmethod find = vx_find
//@@ vmethod enumerate = vx_enumerate
//@@ method to_string_lossy = vx_lossy
//@@ vmethod into_owned = vx_owned
//@@ method as_path = vx_as_path
//@@ streq contract_name
//@@ forinto
//@@ path anyhow::Error = AnyErr
//@@ path hir::hir::ContractDefinition = hir::ContractDefinition

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
use std::path::PathBuf;
//@@ include span
//@@ include text
//@@ include names
//@@ include hirtypes
//@@ include iters
//@@ include search
//@@ include linespec
//@@ struct crates/foundry/src/config.rs Config
impl FunctionDefinition {
//@@ fn crates/foundry/src/hir/hir.rs FunctionDefinition::is_modifier
    ensures r == (self.ty is Modifier),
//@@ end
}
//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
//@@ fn crates/foundry/src/check/utils.rs offset_to_line stub from=lines
//@@ end
}
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include findspec
//@@ fn crates/foundry/src/sol/mod.rs find_contract stub from=finding
//@@ end
//@@ fn crates/foundry/src/sol/mod.rs find_matching_fn stub from=finding
//@@ end
}
}
use pt::SourceUnit;
use sol::{find_contract, find_matching_fn};
verus! {
#[verifier::external_body] pub struct AnyErr;
#[verifier::external_body] pub struct Comments;
//@@ enum crates/foundry/src/check/location.rs Location sub=Filename->String,Line->usize
//@@ enum crates/foundry/src/check/violation.rs ViolationKind
//@@ struct crates/foundry/src/check/violation.rs Violation
//@@ struct crates/foundry/src/check/context.rs Context
pub struct StructuralMatcher;
//@@ include checkspec
/// std's BTreeSet of pairs (trusted): iterates in lexicographic order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { k: K }
pub open spec fn lex(a: (usize, usize), b: (usize, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn ascending(s: Seq<(usize, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex(#[trigger] s[i], #[trigger] s[j]) }
impl BTreeSet<(usize, usize)> {
    pub uninterp spec fn view(&self) -> Set<(usize, usize)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<(usize, usize)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (usize, usize)) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: std::vec::IntoIter<(usize, usize)>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, ascending(r.remaining()),
            forall|x: (usize, usize)| self@.contains(x) <==> #[trigger] r.remaining().contains(x),
    { unimplemented!() }
}
/// derive(Clone) (trusted)
impl Clone for FunctionDefinition { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for pt::FunctionDefinition { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@ include paths

pub open spec fn env(c: Context) -> Env { Env { tree: path_text(c.tree), sol: path_text(c.sol), src: c.src@, skip: c.cfg.skip_modifiers } }
impl Violation {
//@@ fn crates/foundry/src/check/violation.rs Violation::new
    ensures r.kind == kind, r.location == location,
//@@ end
}
broadcast proof fn lemma_svs_push(v: Seq<Violation>, a: Violation)
    ensures #[trigger] svs(v.push(a)) == svs(v).push(sv(a)),
{ assert(svs(v.push(a)) =~= svs(v).push(sv(a))); }
broadcast proof fn lemma_svs_add(v: Seq<Violation>, w: Seq<Violation>)
    ensures #[trigger] svs(v + w) == svs(v) + svs(w),
{ assert(svs(v + w) =~= svs(v) + svs(w)); }
broadcast proof fn lemma_svs_empty(v: Seq<Violation>)
    requires v.len() == 0,
    ensures #[trigger] svs(v) == Seq::<SV>::empty(),
{ assert(svs(v) =~= Seq::<SV>::empty()); }

proof fn lemma_match_at(v: Seq<pt::ContractPart>, h: SHir, i: int)
    requires 0 <= i <= v.len(),
    ensures i <= sol::match_at(v, h, i) <= v.len(), sol::match_at(v, h, i) < v.len() ==> sol::fn_matches(h, v[sol::match_at(v, h, i)]),
    decreases v.len() - i,
{ if i < v.len() { lemma_match_at(v, h, i + 1); } }
pub open spec fn by_first(s: Seq<(usize, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
pub open spec fn good(x: (usize, usize), kids: Seq<SHir>, parts: Seq<pt::ContractPart>) -> bool {
    x.0 < kids.len() && x.1 < parts.len() && kids[x.0 as int] is Fun && parts[x.1 as int] is FunctionDefinition
}
pub open spec fn all_good(s: Seq<(usize, usize)>, kids: Seq<SHir>, parts: Seq<pt::ContractPart>) -> bool { forall|i: int| 0 <= i < s.len() ==> good(#[trigger] s[i], kids, parts) }
proof fn lemma_present(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, n: int)
    requires 0 <= n <= kids.len() <= usize::MAX, parts.len() <= usize::MAX,
    ensures ({ let p = present(kids, parts, n);
        by_first(p) && all_good(p, kids, parts) && p.len() <= n && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 < n }),
    decreases n,
{
    if n > 0 { lemma_present(kids, parts, n - 1); lemma_match_at(parts, kids[n - 1], 0); }
}
proof fn lemma_late(p: Seq<(usize, usize)>, n: int)
    requires 0 <= n <= p.len(), by_first(p),
    ensures ascending(late(p, n)), forall|x: (usize, usize)| #[trigger] late(p, n).contains(x) ==> exists|i: int| 0 <= i < n && p[i] == x,
    decreases n,
{
    if n > 0 {
        lemma_late(p, n - 1);
        let l = late(p, n - 1);
        let t = late(p, n);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies lex(#[trigger] t[i], #[trigger] t[j]) by {
            if j == l.len() { assert(l.contains(l[i])); }
        }
        assert forall|x: (usize, usize)| #[trigger] t.contains(x) implies exists|i: int| 0 <= i < n && p[i] == x by {
            let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
            if k < l.len() { assert(l.contains(x)); }
        }
    }
}
proof fn lemma_late_in(p: Seq<(usize, usize)>, n: int, kids: Seq<SHir>, parts: Seq<pt::ContractPart>)
    requires 0 <= n <= p.len(), by_first(p), all_good(p, kids, parts),
    ensures all_good(late(p, n), kids, parts),
{
    lemma_late(p, n);
    let l = late(p, n);
    assert forall|i: int| 0 <= i < l.len() implies good(#[trigger] l[i], kids, parts) by { assert(l.contains(l[i])); }
}
/// two ascending sequences with the same elements are the same
broadcast proof fn lemma_unique(s: Seq<(usize, usize)>, t: Seq<(usize, usize)>)
    requires #[trigger] ascending(s), #[trigger] ascending(t), forall|x: (usize, usize)| s.contains(x) <==> t.contains(x),
    ensures s == t,
    decreases s.len(),
{
    if s.len() == 0 {
        if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); }
        assert(s =~= t);
    } else {
        assert(s.contains(s.last()));
        assert(t.contains(s.last()));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == s.last();
        assert(t.contains(t.last()));
        assert(s.contains(t.last()));
        let m = choose|m: int| 0 <= m < s.len() && s[m] == t.last();
        assert(s.last() == t.last());
        let a = s.drop_last();
        let b = t.drop_last();
        assert forall|x: (usize, usize)| a.contains(x) <==> #[trigger] b.contains(x) by {
            if a.contains(x) {
                let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
                assert(s[i] == x);
                assert(s.contains(x));
                assert(t.contains(x));
                let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
                assert(lex(s[i], s[s.len() - 1]));
                assert(b[j] == x);
            }
            if b.contains(x) {
                let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
                assert(t[j] == x);
                assert(t.contains(x));
                assert(s.contains(x));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
                assert(lex(t[j], t[t.len() - 1]));
                assert(a[i] == x);
            }
        }
        assert(ascending(a)) by { assert forall|i: int, j: int| 0 <= i < j < a.len() implies lex(#[trigger] a[i], #[trigger] a[j]) by { assert(lex(s[i], s[j])); } }
        assert(ascending(b)) by { assert forall|i: int, j: int| 0 <= i < j < b.len() implies lex(#[trigger] b[i], #[trigger] b[j]) by { assert(lex(t[i], t[j])); } }
        lemma_unique(a, b);
        assert(s =~= a.push(s.last()));
        assert(t =~= b.push(t.last()));
    }
}
proof fn lemma_late_push(p: Seq<(usize, usize)>, n: int, x: (usize, usize))
    requires 0 < n <= p.len(),
    ensures late(p, n).contains(x) <==> late(p, n - 1).contains(x) || (x == p[n - 1] && inverted(p, n - 1, p.len() as int)),
{
    let l = late(p, n - 1);
    if inverted(p, n - 1, p.len() as int) {
        assert(late(p, n) == l.push(p[n - 1]));
        if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; assert(late(p, n)[k] == x); }
        assert(late(p, n)[l.len() as int] == p[n - 1]);
        if late(p, n).contains(x) { let k = choose|k: int| 0 <= k < l.len() + 1 && late(p, n)[k] == x; if k < l.len() { assert(l[k] == x); } }
    }
}
pub open spec fn hit<'a>() -> spec_fn(&'a Hir) -> bool { |h: &'a Hir| *h is ContractDefinition }
proof fn lemma_hit<'a>(v: Seq<Hir>, w: Seq<&'a Hir>, i: int)
    requires 0 <= i <= v.len(), w.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> *(#[trigger] w[j]) == v[j],
    ensures first_hit(w, hit(), i) == (if planned_at(hvs(v), i) < v.len() { Some(&v[planned_at(hvs(v), i)]) } else { None }),
        i <= planned_at(hvs(v), i) <= v.len(), planned_at(hvs(v), i) < v.len() ==> v[planned_at(hvs(v), i)] is ContractDefinition,
    decreases v.len() - i,
{
    broadcast use lemma_hv;
    if i < v.len() { assert(*w[i] == v[i]); lemma_hit(v, w, i + 1); }
}
broadcast proof fn lemma_hit0<'a>(w: Seq<&'a Hir>)
    ensures ({ let v = derefs(w); let k = planned_at(hvs(v), 0);
        #[trigger] first_hit(w, hit(), 0) == (if k < v.len() { Some(&v[k]) } else { None }) && 0 <= k <= v.len() && (k < v.len() ==> v[k] is ContractDefinition) }),
{ lemma_hit(derefs(w), w, 0); }
proof fn lemma_contract_at(v: Seq<pt::SourceUnitPart>, i: int)
    requires 0 <= i <= v.len(),
    ensures i <= sol::contract_at(v, i) <= v.len(),
    decreases v.len() - i,
{ if i < v.len() { lemma_contract_at(v, i + 1); } }

//@@ fn crates/foundry/src/check/rules/structural_match.rs check_contract_names
    requires lies_in(contract_sol.loc, ctx.src@),
    ensures svs(r@) == name_deviation(contract_hir.identifier@, *contract_sol, env(*ctx)),
//@@ at start
    broadcast use {lemma_svs_push, lemma_svs_empty};
//@@ at tail
    proof { assert(svs(violations@) =~= name_deviation(contract_hir.identifier@, *contract_sol, env(*ctx))); }
//@@ end
//@@ fn crates/foundry/src/check/rules/structural_match.rs check_fns_structure
    requires contract_in(*contract_sol, ctx.src@),
    ensures svs(r@) == fn_deviations(hvs(contract_hir.children@), contract_sol.parts@, env(*ctx)),
//@@ at start
    hide(sol::match_at);
    broadcast use {lemma_hv, lemma_svs_push, lemma_svs_empty, lemma_unique};
    let ghost kids = hvs(contract_hir.children@);
    let ghost parts = contract_sol.parts@;
    let ghost e = env(*ctx);
    assert(contract_sol.parts.len() <= usize::MAX && contract_hir.children.len() <= usize::MAX);
    proof { lemma_present(kids, parts, kids.len() as int); }
//@@ loop 0
    invariant
        kids == hvs(contract_hir.children@), parts == contract_sol.parts@, e == env(*ctx), kids.len() <= usize::MAX,
        vx_it0.seq().len() == kids.len(),
        forall|i: int| 0 <= i < kids.len() ==> (#[trigger] vx_it0.seq()[i]).0 == i && *vx_it0.seq()[i].1 == contract_hir.children@[i],
        svs(violations@) == missing(kids, parts, e, vx_it0.index@ as int),
        present_fn_indices@ == present(kids, parts, vx_it0.index@ as int),
//@@ at loop 0 start
    proof { lemma_match_at(parts, kids[vx_it0.index@ as int], 0); }
//@@ at after loop 0
    let ghost p = present_fn_indices@;
    let ghost miss = violations@;
    proof {
        assert(late(Seq::<(usize, usize)>::empty(), 0) =~= Seq::empty());
        if p.len() == 0 {
            assert(disordered(late(p, 0), parts, e) =~= Seq::<SV>::empty());
            assert(svs(miss) + Seq::<SV>::empty() =~= svs(miss));
        }
    }
//@@ loop 1
    invariant
        p == present_fn_indices@, by_first(p), p.len() > 0,
        forall|x: (usize, usize)| #[trigger] unsorted_set@.contains(x) <==> late(p, vx_it1.index@ as int).contains(x),
//@@ at loop 1 start
    let ghost l = late(p, i as int);
//@@ loop 2
    invariant
        p == present_fn_indices@, by_first(p), 0 <= i < p.len() - 1, l == late(p, i as int), p[i as int] == (i_hir_idx, i_sol_idx),
        forall|x: (usize, usize)| #[trigger] unsorted_set@.contains(x) <==> l.contains(x) || (x == p[i as int] && inverted(p, i as int, i + 1 + vx_it2.index@)),
//@@ at loop 2 start
    assert(j == i + 1 + vx_it2.index@);
    let ghost u = unsorted_set@;
//@@ at loop 2 end
    proof {
        let a = i as int;
        if p[a].1 > p[j as int].1 { assert(inverted(p, a, j + 1)); }
        else { assert(inverted(p, a, j + 1) == inverted(p, a, j as int)); }
    }
//@@ at after loop 2
    proof {
        assert forall|x: (usize, usize)| unsorted_set@.contains(x) <==> late(p, i + 1).contains(x) by { lemma_late_push(p, i + 1, x); }
    }
//@@ at before loop 3
    let ghost all = late(p, p.len() as int);
    proof {
        let n = p.len() as int;
        assert(!inverted(p, n - 1, n));
        assert(late(p, n) == late(p, n - 1));
        lemma_late(p, n);
        lemma_late_in(p, n, kids, parts);
        assert(svs(miss) + disordered(all.take(0), parts, e) =~= svs(miss));
    }
//@@ loop 3
    invariant
        kids == hvs(contract_hir.children@), parts == contract_sol.parts@, e == env(*ctx), contract_in(*contract_sol, ctx.src@),
        ascending(all), ascending(vx_it3.seq()),
        all_good(all, kids, parts),
        vx_it3.seq() == all,
        svs(violations@) == svs(miss) + disordered(all.take(vx_it3.index@ as int), parts, e),
//@@ at loop 3 start
    proof {
        let k = vx_it3.index@ as int;
        assert(good(all[k], kids, parts));
        assert(all.take(k + 1) =~= all.take(k).push(all[k]));
        assert(disordered(all.take(k + 1), parts, e) =~= disordered(all.take(k), parts, e).push(disordered(all.take(k + 1), parts, e)[k]));
        assert(svs(miss) + disordered(all.take(k + 1), parts, e) =~= (svs(miss) + disordered(all.take(k), parts, e)).push(disordered(all.take(k + 1), parts, e)[k]));
    }
//@@ at after loop 3
    proof { assert(all.take(all.len() as int) =~= all); }
//@@ end
impl StructuralMatcher {
//@@ fn crates/foundry/src/check/rules/structural_match.rs StructuralMatcher::check
    requires tree_in(ctx.pt, ctx.src@), hv(ctx.hir) is Root, planned_at(hv(ctx.hir)->Root_kids, 0) < hv(ctx.hir)->Root_kids.len(),
    ensures svs(r@) == deviations(hv(ctx.hir), ctx.pt, env(*ctx)),
//@@ closure 0
    |child: &&Hir| -> (r: bool) ensures r == hit()(*child)
//@@ at start
    broadcast use {lemma_hv, lemma_svs_push, lemma_svs_empty, lemma_svs_add, lemma_hit0, lemma_derefs};
    proof { assert(tr(hit())); lemma_contract_at(ctx.pt.0@, 0); }
//@@ end
}
}
fn main() {}
