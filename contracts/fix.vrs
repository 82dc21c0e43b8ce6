//@@ include common
//@@ vmethod find_map = vx_find_map
//@@ path forge_fmt::Parsed = Parsed
//@@ path forge_fmt::parse = parse
//@@ path format = vx_format
//@@ path forge_fmt = 
//@@ path hir::hir = hir
//@@ path anyhow::Result = core::result::Result
//@@ path crate::scaffold::emitter =
//@@ path anyhow::Error = AnyErr


verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
use std::path::PathBuf;
//@@ include span
//@@ include text
//@@ include names
//@@ include hirtypes
//@@ include iters
//@@ struct crates/foundry/src/config.rs Config
//@@ const crates/foundry/src/constants.rs DEFAULT_SOL_VERSION
impl Config {
//@@ fn crates/foundry/src/config.rs Config::default stub from=context
//@@ end
}
//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
//@@ include emitspec
//@@ include emitview
impl Emitter {
//@@ fn crates/foundry/src/scaffold/emitter.rs Emitter::new stub from=emitter
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs Emitter::emit stub from=emitter
//@@ end
}
impl Clone for FunctionDefinition { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression, Parameter, ParameterList, Annotation,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier, EnumDefinition, StructDefinition, EventDefinition, ErrorDefinition,
    VariableDefinition, TypeDefinition, Using,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include findspec
//@@ include fmtspec
//@@ include printspec
//@@ include printlemmas
//@@ fn crates/foundry/src/sol/mod.rs find_contract stub from=finding
//@@ end
//@@ struct crates/foundry/src/sol/translator.rs Translator
pub open spec fn u_is(u: SourceUnit, h: SHir, t: Translator) -> bool { unit_is(u, h, t.sol_version@, t.with_forge_std, t.skip_modifiers) }
impl Translator {
//@@ fn crates/foundry/src/sol/translator.rs Translator::new stub from=sol
//@@ end
//@@ fn crates/foundry/src/sol/translator.rs Translator::translate stub from=sol
//@@ end
}
//@@ struct crates/foundry/src/sol/fmt.rs Formatter
impl Formatter {
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::new stub from=fmt
//@@ end
//@@ fn crates/foundry/src/sol/fmt.rs Formatter::emit immut stub from=fmt
//@@ end
}
}
}
use pt::SourceUnit;
use sol::find_contract;
verus! {
//@@ include search
//@@ include wellspec
//@@ include searching
impl Clone for SourceUnit { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Comments;
#[verifier::external_body] #[derive(Debug)] pub struct Diagnostic;
#[verifier::external_body] pub struct FormatterError;
#[verifier::external_body] pub struct AnyErr;
//@@ struct crates/foundry/src/check/context.rs Context
impl Clone for Context { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@ enum crates/foundry/src/check/violation.rs ViolationKind
//@@ enum crates/foundry/src/check/location.rs Location sub=Filename->String,Line->usize
//@@ struct crates/foundry/src/check/violation.rs Violation
//@@ include parsing
//@@ include patching
//@@ include fixspec
//@@ include wholelemmas
// ---------------------------------------------------------------- forge's formatter (trusted: a function of its input)
#[verifier::external_body] pub struct FormatterConfig;
pub uninterp spec fn default_style() -> FormatterConfig;
pub uninterp spec fn no_directives() -> InlineConfig;
impl FormatterConfig { #[verifier::external_body] pub fn default() -> (r: Self) ensures r == default_style() { unimplemented!() } }
impl InlineConfig { #[verifier::external_body] pub fn default() -> (r: Self) ensures r == no_directives() { unimplemented!() } }
pub uninterp spec fn pretty(s: Seq<char>, u: SourceUnit, c: Comments) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vx_format(w: &mut String, p: Parsed, c: FormatterConfig) -> (r: core::result::Result<(), FormatterError>)
    requires c == default_style(), p.inline_config == no_directives(), p.invalid_inline_config_items@.len() == 0,
    ensures match pretty(p.src@, p.pt, p.comments) { Some(t) => r is Ok && final(w)@ == old(w)@ + t, None => r is Err },
{ unimplemented!() }
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == less_space(s@);

//@@ fn crates/foundry/src/check/violation.rs get_insertion_offset stub from=locate
//@@ end
pub open spec fn as_planned<'a>() -> spec_fn(&'a Hir) -> Option<&'a ContractDefinition> {
    |h: &'a Hir| match *h { Hir::ContractDefinition(c) => Some(&c), _ => None }
}
proof fn lemma_planned<'a>(v: Seq<Hir>, w: Seq<&'a Hir>, i: int)
    requires 0 <= i <= v.len(), w.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> *(#[trigger] w[j]) == v[j],
    ensures first_some(w, as_planned(), i) == (if planned_at(hvs(v), i) < v.len() { as_planned()(&v[planned_at(hvs(v), i)]) } else { None }),
        i <= planned_at(hvs(v), i) <= v.len(), planned_at(hvs(v), i) < v.len() ==> v[planned_at(hvs(v), i)] is ContractDefinition,
    decreases v.len() - i,
{ broadcast use lemma_hv; if i < v.len() { assert(*w[i] == v[i]); assert(hvs(v)[i] == hv(v[i])); lemma_planned(v, w, i + 1); } }
broadcast proof fn lemma_planned0<'a>(w: Seq<&'a Hir>)
    ensures #[trigger] first_some(w, as_planned(), 0) == ({ let v = derefs(w); if planned_at(hvs(v), 0) < v.len() { as_planned()(&v[planned_at(hvs(v), 0)]) } else { None } }),
        0 <= planned_at(hvs(derefs(w)), 0) <= w.len(), planned_at(hvs(derefs(w)), 0) < w.len() ==> derefs(w)[planned_at(hvs(derefs(w)), 0)] is ContractDefinition,
{ lemma_planned(derefs(w), w, 0); }
pub broadcast proof fn lemma_t_units(u: SourceUnit, h: SHir, v: Seq<char>, test: bool, skip: bool)
    requires #[trigger] sol::unit_is(u, h, v, test, skip),
    ensures sol::t_unit(u) == sol::s_unit(h, v, test, skip, true), forall|i: int| 0 <= i < u.0@.len() ==> sol::printable(#[trigger] u.0@[i]),
{ sol::lemma_t_unit(u, h, v, test, skip); }
broadcast proof fn lemma_gap(c: pt::ContractDefinition, kids: Seq<SHir>, i: int, s: Seq<char>)
    requires contract_placed(c, s),
    ensures is_off(s, #[trigger] gap(c, kids, i, s)),
    decreases i,
{
    broadcast use lemma_idx_b;
    if i <= 0 || i > kids.len() {
        lemma_outside(s, idx(s, header_end(c)), '{');
        let k = outside(s, idx(s, header_end(c)), '{');
        assert(off(s, k + 1) == off(s, k) + 1);
    } else if kids[i - 1] is Fun && sol::matched(c.parts@, kids[i - 1]) {
        lemma_match_in(c.parts@, kids[i - 1], 0);
        let f = *(c.parts@[sol::first_match(c.parts@, kids[i - 1])]->FunctionDefinition_0);
        assert(c.parts@[sol::first_match(c.parts@, kids[i - 1])] is FunctionDefinition);
        lemma_fn_end(f, s);
    } else { lemma_gap(c, kids, i - 1, s); }
}
broadcast proof fn lemma_contract_spot(u: SourceUnit, s: Seq<char>)
    requires #[trigger] parsed_as(s, u),
    ensures contract_of(u) matches Some(c) ==> contract_placed(c, s) && (c.name matches Some(n) ==> spot(n.loc, s)),
        0 <= sol::contract_at(u.0@, 0) <= u.0@.len(),
{ lemma_contract_in(u.0@, 0); }
proof fn lemma_contract_in(v: Seq<pt::SourceUnitPart>, i: int)
    requires 0 <= i <= v.len(),
    ensures i <= sol::contract_at(v, i) <= v.len(), sol::contract_at(v, i) < v.len() ==> v[sol::contract_at(v, i)] is ContractDefinition,
    decreases v.len() - i,
{ if i < v.len() { lemma_contract_in(v, i + 1); } }
impl HRoot {
//@@ fn crates/foundry/src/hir/hir.rs Root::find_contract
    ensures match r {
        Some(c) => 0 <= planned_at(hvs(self.children@), 0) < self.children@.len() && self.children@[planned_at(hvs(self.children@), 0)] == Hir::ContractDefinition(*c),
        None => planned_at(hvs(self.children@), 0) == self.children@.len(),
    },
//@@ closure 0
    |child: &Hir| -> (r: Option<&ContractDefinition>) ensures r == as_planned()(child)
//@@ at start
    broadcast use {lemma_planned0, lemma_derefs};
    proof { assert(tr(as_planned())); }
//@@ end
}
impl Hir {
//@@ fn crates/foundry/src/hir/hir.rs Hir::find_contract
    ensures match r { Some(c) => plan_kids(hv(*self)) == Some(hvs(c.children@)), None => plan_kids(hv(*self)) is None },
//@@ at start
    broadcast use lemma_hv;
    proof { if let Hir::Root(x) = self { let k = planned_at(hvs(x.children@), 0); if 0 <= k < x.children@.len() { assert(hvs(x.children@)[k] == hv(x.children@[k])); } } }
//@@ end
}
impl Context {
//@@ fn crates/foundry/src/check/context.rs Context::from_parsed stub from=order
//@@ end
//@@ fn crates/foundry/src/check/context.rs Context::fmt
    ensures match pretty(self.src@, self.pt, self.comments) { Some(t) => r matches Ok(x) && x@ == t, None => r is Err },
//@@ at tail
    proof { if let Some(t) = pretty(self.src@, self.pt, self.comments) { assert(formatted@ =~= t); } }
//@@ end
//@@ fn crates/foundry/src/check/context.rs Context::insert_function_at
    requires is_off(old(self).src@, offset as int),
    ensures final(self).src@ == with_fn(old(self).src@, offset as int, fv(*function)), final(self).pt == old(self).pt, final(self).comments == old(self).comments,
//@@ at start
    broadcast use lemma_hv;
    let ghost o = offset as int;
    let ghost s = self.src@;
    let ghost f0 = fv(*function);
//@@ at end
    assert(self.src@ =~= with_fn(s, o, f0));
//@@ end
}
//@@ fn crates/foundry/src/check/violation.rs update_source
    requires parsed_as(ctx.src@, ctx.pt), ctx.comments == notes_of(ctx.src@),
    ensures only_text(ctx, r), updated(ctx, source@, r),
//@@ end
impl ViolationKind {
//@@ fn crates/foundry/src/check/violation.rs ViolationKind::is_fixable
    ensures r == fixable(*self),
//@@ end
//@@ fn crates/foundry/src/check/violation.rs ViolationKind::fix
    requires parsed_as(ctx.src@, ctx.pt), ctx.comments == notes_of(ctx.src@), hv(ctx.hir) is Root,
        self matches ViolationKind::MatchingFunctionMissing(_, i) ==> (plan_kids(hv(ctx.hir)) matches Some(k) ==> i <= k.len()),
    ensures fix_is(*self, ctx, r),
//@@ closure 0
    |contract: Box<pt::ContractDefinition>| -> (r: Option<pt::Identifier>) ensures r == contract.name
//@@ at start
    hide(sol::s_unit); hide(sol::t_unit); hide(sol::unit_is); hide(sol::clean); hide(e_fn); hide(gap); hide(placed); hide(contract_placed); hide(hv);
    broadcast use {lemma_t_units, lemma_gap, lemma_contract_spot};
    let ghost s0 = ctx.src@;
//@@ at let source#1
    assert(source@ =~= renamed(s0, old_name.loc, new_name@));
//@@ end
}
impl Violation {
//@@ fn crates/foundry/src/check/violation.rs Violation::is_fixable
    ensures r == fixable(self.kind),
//@@ end
}
}
fn main() {}
