//@@ include common
//@@ path anyhow::Result = AnyResult
//@@ path anyhow::Error = AnyErr
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path bulloak_syntax =
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path hir =
//@@ path result = core::result
//@@ path crate::scaffold =
//@@ path crate::check =
//@@ path bulloak_foundry::config =
//@@ path std::process = process
//@@ path fs::write = vx_write
//@@ path Path = PathBuf
//@@ path crate =
//@@ method display = vx_display
//@@ vmethod into = vx_to_config
//@@ vmethod yellow = vx_paint
//@@ vmethod blue = vx_paint
//@@ vmethod green = vx_paint
//@@ vmethod bold = vx_paint
//@@ method to_string_lossy = vx_lossy
//@@ path rules =
//@@ path bulloak_foundry::check::rules =
//@@ prints

verus! {
use std::path::PathBuf;
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include hirtypes
//@@ include emitspec
//@@ include iters
//@@ include search
//@@ include linespec
//@@ include text
//@@ include names
//@@ include hirspec
//@@ include combspec
//@@ struct crates/foundry/src/config.rs Config
}
//@@ include frontspec
pub mod combiner {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
//@@ type crates/foundry/src/hir/combiner.rs Result
//@@ struct crates/foundry/src/hir/combiner.rs Combiner
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ include combview
impl Combiner {
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::new stub from=combiner
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::combine stub from=combiner
//@@ end
}
}
}
//@@ include planspec
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression, Parameter, ParameterList, Annotation,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier, EnumDefinition, StructDefinition, EventDefinition, ErrorDefinition,
    VariableDefinition, TypeDefinition, Using,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include findspec
//@@ include fmtspec
//@@ include printspec
//@@ fn crates/foundry/src/sol/mod.rs find_contract stub from=finding
//@@ end
}
}
use pt::SourceUnit;
use sol::{find_contract, jn};
verus! {
#[verifier::external_body] pub struct Comments;
#[verifier::external_body] pub struct Diagnostic;
#[verifier::external_body] pub struct FormatterError;
//@@ enum crates/foundry/src/check/location.rs Location sub=Filename->String,Line->usize
//@@ enum crates/foundry/src/check/violation.rs ViolationKind
//@@ struct crates/foundry/src/check/violation.rs Violation
//@@ struct crates/foundry/src/check/context.rs Context
impl Clone for Hir { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@ include wellspec
//@@ include checkspec
//@@ include paths
//@@ include worldspec
//@@ include parsedspec
//@@ include ctxspec
//@@ strconst crates/foundry/src/check/violation.rs SEPARATOR banner
//@@ include orderspec
//@@ const crates/foundry/src/constants.rs DEFAULT_SOL_VERSION
//@@ include fixspec
//@@ include outspec
//@@ include clibits
pub uninterp spec fn pretty(s: Seq<char>, u: SourceUnit, c: Comments) -> Option<Seq<char>>;
impl VxDisp for usize { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for IoErr { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for FormatterError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
//@@ fn crates/syntax/src/utils.rs pluralize stub from=utils
//@@ end
//@@ struct crates/bulloak/src/scaffold.rs Scaffold
//@@ struct crates/bulloak/src/check.rs Check
//@@ struct crates/bulloak/src/cli.rs Cli
//@@ enum crates/bulloak/src/cli.rs Commands
//@@ include cfgspec
pub fn vx_to_config(c: &Cli) -> (r: Config) ensures cfg_is(r, *c) { Config::from(c) }
impl Config {
//@@ fn crates/bulloak/src/cli.rs Config::from stub from=cliscaffold
//@@ end
}
//@@ include violationspec
//@@ include checkrunspec
/// what Display prints (unit saying: Violation::fmt)
impl VxDisp for Violation { open spec fn disp(&self) -> Seq<char> { violation_text(*self) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) ensures nameable(self.kind) ==> reports(*self, r@) { unimplemented!() } }
impl Context {
//@@ fn crates/foundry/src/check/context.rs Context::new stub from=context
//@@ end
//@@ fn crates/foundry/src/check/context.rs Context::fmt stub from=fix sub=anyhow::Result->core::result::Result
//@@ end
}
impl Hir {
//@@ fn crates/foundry/src/hir/hir.rs Hir::find_contract stub from=fix
//@@ end
}
impl ViolationKind {
//@@ fn crates/foundry/src/check/violation.rs ViolationKind::fix stub from=fix
//@@ end
}
impl Violation {
//@@ fn crates/foundry/src/check/violation.rs Violation::is_fixable stub from=fix
//@@ end
}
//@@ fn crates/foundry/src/check/violation.rs fix_order stub from=order sub=ContractDefinition->pt::ContractDefinition
//@@ end
pub struct StructuralMatcher;
impl StructuralMatcher {
//@@ fn crates/foundry/src/check/rules/structural_match.rs StructuralMatcher::check stub from=check
//@@ end
}

broadcast proof fn lemma_add_empty(s: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + s) == s,
{ assert(Seq::<char>::empty() + s =~= s); }
broadcast proof fn lemma_all_listed(v: Seq<Violation>)
    requires forall|i: int| 0 <= i < v.len() ==> told(violation_text(#[trigger] v[i])) && reports(v[i], violation_text(v[i])),
    ensures #[trigger] all_listed(svs(v)),
{ assert forall|i: int| 0 <= i < svs(v).len() implies listed(#[trigger] svs(v)[i]) by { assert(sv(v[i]) == svs(v)[i]); assert(told(violation_text(v[i]))); } }
/// what a context made from the files is good for
pub open spec fn ready(c: Context) -> bool {
    hv(c.hir) is Root && planned_at(hv(c.hir)->Root_kids, 0) < hv(c.hir)->Root_kids.len() && parsed_as(c.src@, c.pt) && c.comments == notes_of(c.src@)
}
pub open spec fn from_files(c: Context, cli: Cli, files: Seq<PathBuf>) -> bool { exists|i: int| 0 <= i < files.len() && #[trigger] context_for(Ok(c), cli, files[i]) }
proof fn lemma_planned_root(t: Seq<char>)
    requires plan_of(t, false) is Plan,
    ensures plan_of(t, false)->Plan_0 is Root, planned_at(plan_of(t, false)->Plan_0->Root_kids, 0) < plan_of(t, false)->Plan_0->Root_kids.len(),
{
    hide(tree_of); hide(texts_of); hide(bad_text); hide(h_top); hide(all_of); hide(kept);
    reveal_with_fuel(planned_at, 2);
    let hs = planned_trees(t, false);
    if texts_of(t).len() == 1 { assert(hs[0] == h_root(tree_of(texts_of(t)[0])->Tree_0, false)); }
}
broadcast proof fn lemma_ready(c: Context, cli: Cli, f: PathBuf)
    requires #[trigger] context_for(Ok(c), cli, f),
    ensures ready(c),
{
    hide(plan_of); hide(parsed_as); hide(hv);
    let t = choose|t: Seq<char>| #[trigger] was_read(c.tree, t) && plan_of(t, false) == PL::Plan(hv(c.hir));
    lemma_planned_root(t);
}
broadcast proof fn lemma_tree_in(s: Seq<char>, u: SourceUnit)
    requires #[trigger] parsed_as(s, u),
    ensures tree_in(u, s),
{
    assert forall|i: int| 0 <= i < u.0@.len() implies (#[trigger] u.0@[i] matches pt::SourceUnitPart::ContractDefinition(c) ==> contract_in(*c, s)) by {
        if let pt::SourceUnitPart::ContractDefinition(c) = u.0@[i] {
            assert(contract_placed(*c, s));
            assert forall|j: int| 0 <= j < c.parts@.len() implies (#[trigger] c.parts@[j] matches pt::ContractPart::FunctionDefinition(f) ==> lies_in(f.loc, s)) by {}
        }
    }
}
broadcast proof fn lemma_contract_spot(u: SourceUnit, s: Seq<char>)
    requires #[trigger] parsed_as(s, u),
    ensures contract_of(u) matches Some(c) ==> contract_placed(c, s), 0 <= sol::contract_at(u.0@, 0) <= u.0@.len(),
{ lemma_contract_in(u.0@, 0); }
proof fn lemma_contract_in(v: Seq<pt::SourceUnitPart>, i: int)
    requires 0 <= i <= v.len(),
    ensures i <= sol::contract_at(v, i) <= v.len(), sol::contract_at(v, i) < v.len() ==> v[sol::contract_at(v, i)] is ContractDefinition,
    decreases v.len() - i,
{ if i < v.len() { lemma_contract_in(v, i + 1); } }
proof fn lemma_made_has(rs: Seq<core::result::Result<Context, Violation>>, i: int)
    requires 0 <= i < rs.len(), rs[i] is Ok,
    ensures exists|j: int| 0 <= j < made(rs).len() && #[trigger] made(rs)[j] == rs[i]->Ok_0,
    decreases rs.len(),
{
    let m = made(rs.drop_last());
    if i == rs.len() - 1 { assert(made(rs)[m.len() as int] == rs[i]->Ok_0); }
    else {
        lemma_made_has(rs.drop_last(), i);
        let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == rs.drop_last()[i]->Ok_0;
        assert(made(rs)[j] == rs[i]->Ok_0);
    }
}
/// the functions that are missing are functions of the plan
pub open spec fn counted(k: VK, n: int) -> bool { k matches VK::FnMissing(_, i) ==> i <= n }
proof fn lemma_missing(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, e: Env, n: int)
    requires 0 <= n <= kids.len(),
    ensures forall|i: int| 0 <= i < missing(kids, parts, e, n).len() ==> counted((#[trigger] missing(kids, parts, e, n)[i]).kind, kids.len() as int) && !(missing(kids, parts, e, n)[i].kind is OutOfOrder),
    decreases n,
{ if n > 0 { lemma_missing(kids, parts, e, n - 1); } }
/// a function that is out of order has a name
pub open spec fn named(x: SV) -> bool { x.kind matches VK::OutOfOrder(f, _, _) ==> f.name is Some }
pub open spec fn all_named(l: Seq<SV>) -> bool { forall|i: int| 0 <= i < l.len() ==> named(#[trigger] l[i]) }
proof fn lemma_match_at(v: Seq<pt::ContractPart>, h: SHir, i: int)
    requires 0 <= i <= v.len(),
    ensures sol::match_at(v, h, i) < v.len() ==> 0 <= sol::match_at(v, h, i) && sol::fn_matches(h, v[sol::match_at(v, h, i)]),
    decreases v.len() - i,
{ if i < v.len() { lemma_match_at(v, h, i + 1); } }
pub open spec fn called(parts: Seq<pt::ContractPart>, i: int) -> bool { 0 <= i < parts.len() && (parts[i] matches pt::ContractPart::FunctionDefinition(f) && f.name is Some) }
proof fn lemma_present_called(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, n: int)
    requires parts.len() <= usize::MAX,
    ensures forall|i: int| 0 <= i < present(kids, parts, n).len() ==> called(parts, (#[trigger] present(kids, parts, n)[i]).1 as int),
    decreases n,
{
    if 0 < n <= kids.len() {
        lemma_present_called(kids, parts, n - 1);
        lemma_match_at(parts, kids[n - 1], 0);
        let (r, q) = (present(kids, parts, n - 1), present(kids, parts, n));
        assert forall|i: int| 0 <= i < q.len() implies called(parts, (#[trigger] q[i]).1 as int) by {
            if i < r.len() { assert(q[i] == r[i]); } else { assert(sol::fn_matches(kids[n - 1], parts[q[i].1 as int])); }
        }
    }
}
proof fn lemma_late_called(p: Seq<(usize, usize)>, parts: Seq<pt::ContractPart>, n: int)
    requires forall|i: int| 0 <= i < p.len() ==> called(parts, (#[trigger] p[i]).1 as int),
    ensures forall|i: int| 0 <= i < late(p, n).len() ==> called(parts, (#[trigger] late(p, n)[i]).1 as int),
    decreases n,
{
    if 0 < n <= p.len() {
        lemma_late_called(p, parts, n - 1);
        let (r, q) = (late(p, n - 1), late(p, n));
        assert forall|i: int| 0 <= i < q.len() implies called(parts, (#[trigger] q[i]).1 as int) by { if i < r.len() { assert(q[i] == r[i]); } }
    }
}
proof fn lemma_unmade_named(rs: Seq<core::result::Result<Context, Violation>>, files: Seq<PathBuf>, cli: Cli)
    requires contexts_for(rs, files, cli),
    ensures all_named(unmade(rs)),
    decreases rs.len(),
{
    hide(cfg_is);
    if rs.len() > 0 {
        assert(contexts_for(rs.drop_last(), files.drop_last(), cli)) by {
            assert forall|i: int| 0 <= i < rs.drop_last().len() implies context_for(#[trigger] rs.drop_last()[i], cli, files.drop_last()[i]) by { assert(context_for(rs[i], cli, files[i])); }
        }
        lemma_unmade_named(rs.drop_last(), files.drop_last(), cli);
        assert(context_for(rs[rs.len() - 1], cli, files[rs.len() - 1]));
    }
}
proof fn lemma_add_named(a: Seq<SV>, b: Seq<SV>)
    requires all_named(a), all_named(b),
    ensures all_named(a + b),
{ assert forall|i: int| 0 <= i < (a + b).len() implies named(#[trigger] (a + b)[i]) by { if i >= a.len() { assert((a + b)[i] == b[i - a.len()]); } else { assert((a + b)[i] == a[i]); } } }
proof fn lemma_wrong(c: Context)
    requires ready(c),
    ensures
        plan_kids(hv(c.hir)) is Some,
        forall|i: int| 0 <= i < wrong(c).len() ==> counted((#[trigger] wrong(c)[i]).kind, plan_kids(hv(c.hir))->Some_0.len() as int),
        some_misplaced(wrong(c)) ==> (contract_of(c.pt) matches Some(x) && x.parts@.len() > 0),
        all_named(wrong(c)),
{
    hide(missing); hide(present); hide(late);
    lemma_contract_in(c.pt.0@, 0);
    lemma_planned_is(hv(c.hir)->Root_kids, 0);
    let kids = plan_kids(hv(c.hir))->Some_0;
    if let Some(x) = contract_of(c.pt) {
        let e = env(c);
        lemma_missing(kids, x.parts@, e, kids.len() as int);
        let p = present(kids, x.parts@, kids.len() as int);
        lemma_no_parts(kids, x.parts@, kids.len() as int);
        lemma_late_len(p, p.len() as int);
        assert(x.parts.len() <= usize::MAX);
        lemma_present_called(kids, x.parts@, kids.len() as int);
        lemma_late_called(p, x.parts@, p.len() as int);
        let (a, b, d) = (name_deviation(hv(c.hir)->Root_kids[planned_at(hv(c.hir)->Root_kids, 0)]->Contract_name, x, e), missing(kids, x.parts@, e, kids.len() as int), disordered(late(p, p.len() as int), x.parts@, e));
        assert(wrong(c) == a + (b + d));
        assert forall|i: int| 0 <= i < wrong(c).len() implies counted((#[trigger] wrong(c)[i]).kind, kids.len() as int) && (wrong(c)[i].kind is OutOfOrder ==> x.parts@.len() > 0) && named(wrong(c)[i]) by {
            if i < a.len() { } else if i < a.len() + b.len() { assert(wrong(c)[i] == b[i - a.len()]); } else { let k = i - a.len() - b.len(); assert(wrong(c)[i] == d[k]); assert(called(x.parts@, late(p, p.len() as int)[k].1 as int)); }
        }
    }
}
proof fn lemma_planned_is(v: Seq<SHir>, i: int)
    requires 0 <= i,
    ensures planned_at(v, i) < v.len() ==> 0 <= planned_at(v, i) && v[planned_at(v, i)] is Contract,
    decreases v.len() - i,
{ if i < v.len() { lemma_planned_is(v, i + 1); } }
proof fn lemma_no_parts(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, n: int)
    ensures parts.len() == 0 ==> present(kids, parts, n).len() == 0,
    decreases n,
{ if 0 < n <= kids.len() { lemma_no_parts(kids, parts, n - 1); } }
proof fn lemma_late_len(p: Seq<(usize, usize)>, n: int)
    ensures p.len() == 0 ==> late(p, n).len() == 0,
{ }
proof fn lemma_one_by_one(vs: Seq<Violation>, n: int, k: int)
    requires 0 <= n <= vs.len(), forall|i: int| 0 <= i < svs(vs).len() ==> counted((#[trigger] svs(vs)[i]).kind, k),
    ensures forall|i: int| 0 <= i < one_by_one(vs, n).len() ==> counted(vkind((#[trigger] one_by_one(vs, n)[i]).kind), k),
    decreases n,
{ if n > 0 { lemma_one_by_one(vs, n - 1, k); assert(svs(vs)[n - 1] == sv(vs[n - 1])); } }
proof fn lemma_misplaced(vs: Seq<Violation>)
    ensures some_misplaced(svs(vs)) <==> exists|i: int| 0 <= i < vs.len() && misplaced((#[trigger] vs[i]).kind),
{
    if some_misplaced(svs(vs)) { let i = choose|i: int| 0 <= i < svs(vs).len() && (#[trigger] svs(vs)[i]).kind is OutOfOrder; assert(misplaced(vs[i].kind)); }
    if exists|i: int| 0 <= i < vs.len() && misplaced((#[trigger] vs[i]).kind) { let i = choose|i: int| 0 <= i < vs.len() && misplaced((#[trigger] vs[i]).kind); assert(svs(vs)[i].kind is OutOfOrder); }
}
broadcast proof fn lemma_svs_add(v: Seq<Violation>, w: Seq<Violation>)
    ensures #[trigger] svs(v + w) == svs(v) + svs(w),
{ assert(svs(v + w) =~= svs(v) + svs(w)); }
broadcast proof fn lemma_svs_push(v: Seq<Violation>, a: Violation)
    ensures #[trigger] svs(v.push(a)) == svs(v).push(sv(a)),
{ assert(svs(v.push(a)) =~= svs(v).push(sv(a))); }
proof fn lemma_fixed_one(l: Seq<Violation>, ms: Seq<Context>, r: Context)
    requires fix_chain(l, ms), ms.len() <= l.len(), fix_is(l[ms.len() - 1].kind, ms.last(), r),
    ensures fix_chain(l, ms.push(r)), ms.push(r)[0] == ms[0], r.tree == ms.last().tree, r.sol == ms.last().sol, r.hir == ms.last().hir, r.cfg == ms.last().cfg,
        parsed_as(r.src@, r.pt), r.comments == notes_of(r.src@),
{
    let n = ms.push(r);
    assert forall|i: int| 0 <= i < n.len() - 1 implies fix_is((#[trigger] l[i]).kind, n[i], n[i + 1]) by {
        if i < ms.len() - 1 { assert(n[i] == ms[i] && n[i + 1] == ms[i + 1]); }
    }
}
proof fn lemma_mended(c: Context, vs: Seq<Violation>, ms: Seq<Context>, r: Context, t: Seq<char>)
    requires
        svs(vs) == wrong(c), fix_chain(one_by_one(vs, vs.len() as int), ms), ms.len() == one_by_one(vs, vs.len() as int).len() + 1, ms[0] == c, reordered(ms.last(), r),
        t == (match pretty(r.src@, r.pt, r.comments) { Some(x) => x, None => r.src@ }),
    ensures mended(c, t),
{ hide(fix_chain); hide(reordered); hide(one_by_one); hide(wrong); }
proof fn lemma_started(l: Seq<Violation>, c: Context)
    ensures fix_chain(l, seq![c]), one_by_one(l, 0) == Seq::<Violation>::empty(),
{}
broadcast proof fn lemma_reorders(s: Seq<char>, u: SourceUnit, c: pt::ContractDefinition, k: Seq<SHir>)
    requires reorders(), parsed_as(s, u), contract_of(u) == Some(c), c.parts@.len() > 0,
    ensures #![trigger ordered(c, k, s), parsed_as(s, u)] pt_of(ordered(c, k, s)) is Some,
{ hide(ordered); hide(parsed_as); hide(contract_of); }
broadcast proof fn lemma_svs_len(v: Seq<Violation>)
    ensures #[trigger] svs(v).len() == v.len(),
{}
proof fn lemma_none()
    ensures svs(Seq::<Violation>::empty()) == Seq::<SV>::empty(), made(Seq::empty()) == Seq::<Context>::empty(), unmade(Seq::empty()) == Seq::<SV>::empty(),
{ assert(svs(Seq::<Violation>::empty()) =~= Seq::<SV>::empty()); }
proof fn lemma_picked(vs: Seq<Violation>, n: int)
    requires 0 <= n < vs.len(),
    ensures one_by_one(vs, n + 1) == (if misplaced(vs[n].kind) { one_by_one(vs, n) } else { one_by_one(vs, n).push(vs[n]) }),
{}
proof fn lemma_grown(rs: Seq<core::result::Result<Context, Violation>>, r: core::result::Result<Context, Violation>)
    ensures made(rs.push(r)) == (match r { Ok(c) => made(rs).push(c), Err(_) => made(rs) }),
        unmade(rs.push(r)) == (match r { Ok(_) => unmade(rs), Err(v) => unmade(rs).push(sv(v)) }),
{ assert(rs.push(r).drop_last() =~= rs); }
//@@ fn crates/bulloak/src/check.rs exit chains
    requires
        all_named(svs(violations@)),
        all_listed(svs(violations@)) && violations@.len() > 0 ==> may_exit(1),
    ensures violations@.len() == 0,
//@@ at start
    hide(reports);
    broadcast use {lemma_add_empty, lemma_all_listed};
//@@ loop 0
    invariant
        all_named(svs(violations@)),
        forall|i: int| 0 <= i < vx_it0.index@ ==> told(violation_text(#[trigger] violations@[i])) && reports(violations@[i], violation_text(violations@[i])),
//@@ at loop 0 start
    proof { assert(svs(violations@)[vx_it0.index@ as int] == sv(violations@[vx_it0.index@ as int])); assert(named(svs(violations@)[vx_it0.index@ as int])); }
//@@ end
impl Check {
//@@ fn crates/bulloak/src/check.rs Check::write
    requires !self.stdout ==> may_write(sol, output@),
    ensures self.stdout || written(sol, output@) || unwritten(sol),
//@@ end
#[verifier::spinoff_prover]
//@@ fn crates/bulloak/src/check.rs Check::run chains matches
    requires
        reorders(),
        forall|p: PathBuf, t: Seq<char>| fix_writes(*self, *cfg, p, t) ==> #[trigger] may_write(p, t),
        !self.fix ==> forall|rs: Seq<core::result::Result<Context, Violation>>|
            #[trigger] contexts_for(rs, self.files@, *cfg) && report(rs).len() > 0 && all_listed(report(rs)) ==> may_exit(1),
    ensures
        self.fix ==> exists|rs: Seq<core::result::Result<Context, Violation>>| #[trigger] contexts_for(rs, self.files@, *cfg)
            && forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i] matches Ok(c) ==> fixed(*self, c)),
        !self.fix ==> exists|rs: Seq<core::result::Result<Context, Violation>>| #[trigger] contexts_for(rs, self.files@, *cfg) && report(rs).len() == 0,
//@@ at start
    hide(context_is); hide(cfg_is); hide(deviations); hide(env); hide(placed); hide(sol::contract_at); hide(fix_chain); hide(one_by_one); hide(made); hide(unmade); hide(svs); hide(only_text); hide(mended); hide(reorders); hide(fix_is); hide(parsed_as); hide(contract_placed); hide(ordered); hide(tree_in); hide(hv); hide(plan_kids); hide(planned_at); hide(fixable); hide(context_for);
    broadcast use {lemma_svs_push, lemma_svs_len, lemma_svs_add, lemma_ready, lemma_tree_in, lemma_reorders};
    let ghost mut rs: Seq<core::result::Result<Context, Violation>> = Seq::empty();
    let ghost files = self.files@;
    let ghost cli = *cfg;
    proof { lemma_none(); }
//@@ loop 0
    invariant
        files == self.files@, cli == *cfg,
        vx_it0.seq().len() == files.len(), forall|i: int| 0 <= i < files.len() ==> *(#[trigger] vx_it0.seq()[i]) == files[i],
        rs.len() == vx_it0.index@, forall|i: int| 0 <= i < rs.len() ==> context_for(#[trigger] rs[i], cli, files[i]),
        vx_out@ == made(rs), svs(violations@) == unmade(rs),
        forall|j: int| 0 <= j < vx_out@.len() ==> ready(#[trigger] vx_out@[j]) && from_files(vx_out@[j], cli, files),
//@@ at loop 0 start
    let ghost (old_out, old_bad) = (vx_out@, violations@);
//@@ at loop 0 end
    proof {
        reveal(context_for);
        let r: core::result::Result<Context, Violation> = if vx_out@.len() > old_out.len() { Ok(vx_out@.last()) } else { Err(violations@.last()) };
        assert(context_for(r, cli, files[vx_it0.index@]));
        lemma_grown(rs, r);
        rs = rs.push(r);
    }
//@@ at let ctxs
    let ghost cs = made(rs);
    proof { assert(contexts_for(rs, files, cli)); lemma_unmade_named(rs, files, cli); }
//@@ loop 1
    invariant
        files == self.files@, cli == *cfg, self.fix, reorders(),
        forall|p: PathBuf, t: Seq<char>| fix_writes(*self, *cfg, p, t) ==> #[trigger] may_write(p, t),
        vx_it1.seq() == cs, forall|j: int| 0 <= j < cs.len() ==> ready(#[trigger] cs[j]) && from_files(cs[j], cli, files),
        forall|j: int| 0 <= j < vx_it1.index@ ==> fixed(*self, #[trigger] cs[j]),
//@@ at loop 1 start
    let ghost c0 = vx_elem;
    proof { assert(c0 == cs[vx_it1.index@ as int]); lemma_wrong(c0); }
//@@ at let violations#1
    let ghost vs0 = violations@;
    let ghost mut ms: Seq<Context> = seq![c0];
    let ghost n0 = plan_kids(hv(c0.hir))->Some_0.len() as int;
    proof { lemma_one_by_one(vs0, vs0.len() as int, n0); lemma_started(one_by_one(vs0, vs0.len() as int), c0); lemma_started(vs0, c0); }
//@@ loop 3
    invariant vx_it3.seq() == vs0, vx_out@ == one_by_one(vs0, vx_it3.index@ as int),
//@@ at loop 3 start
    proof { lemma_picked(vs0, vx_it3.index@ as int); }
//@@ loop 4
    invariant
        vx_it4.seq() == one_by_one(vs0, vs0.len() as int),
        forall|i: int| 0 <= i < vx_it4.seq().len() ==> counted(vkind((#[trigger] vx_it4.seq()[i]).kind), n0),
        plan_kids(hv(c0.hir)) is Some, n0 == plan_kids(hv(c0.hir))->Some_0.len(),
        ctx.hir == c0.hir, ctx.sol == c0.sol, ready(c0), ready(ctx),
        fix_chain(one_by_one(vs0, vs0.len() as int), ms), ms.len() == vx_it4.index@ + 1, ms[0] == c0, ms.last() == ctx,
//@@ at loop 4 start
    proof { assert(counted(vkind(violation.kind), n0)); }
//@@ at loop 4 end
    proof { lemma_fixed_one(one_by_one(vs0, vs0.len() as int), ms, ctx); ms = ms.push(ctx); }
//@@ at let violations#3
    let ghost m = ctx;
    let ghost vs1 = violations@;
    proof { lemma_misplaced(vs1); lemma_wrong(m); lemma_contract_spot(m.pt, m.src@); }
//@@ loop 5
    invariant
        vx_it5.seq() == vs1,
        vx_out@.len() > 0 <==> exists|i: int| 0 <= i < vx_it5.index@ && misplaced((#[trigger] vs1[i]).kind),
//@@ at let sol
    assert(reordered(m, ctx));
    let ghost r = ctx;
//@@ at before write#0
    proof {
        lemma_mended(c0, vs0, ms, r, formatted@);
        assert(!self.stdout ==> fix_writes(*self, cli, sol, formatted@));
    }
//@@ at after write#0
    assume((fixed_count as int) + (fixable_count as int) <= usize::MAX); // machine arithmetic: the number of issues fits
    assert(fixed(*self, c0));
//@@ at after loop 1
    proof {
        assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i] matches Ok(c) ==> fixed(*self, c)) by {
            if rs[i] is Ok { lemma_made_has(rs, i); }
        }
    }
//@@ loop 6
    invariant
        vx_it6.seq() == cs, forall|j: int| 0 <= j < cs.len() ==> ready(#[trigger] cs[j]),
        svs(violations@) == unmade(rs) + all_wrong(cs, vx_it6.index@ as int),
        all_named(svs(violations@)),
//@@ at loop 6 start
    proof { assert(ctx == cs[vx_it6.index@ as int]); lemma_wrong(ctx); lemma_add_named(svs(violations@), wrong(ctx)); }
//@@ at loop 6 end
    proof { assert(svs(violations@) =~= unmade(rs) + all_wrong(cs, vx_it6.index@ + 1)); }
//@@ end
}
}
fn main() {}
