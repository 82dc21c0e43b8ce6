verus! {
// ---------------------------------------------------------------- what a file is to become
/// anyhow::Error: one of the errors of the phases
pub enum AnyErr { Tok(tokenizer::Error), Parse(parser::Error), Sem(semantics::Errors), Comb(combiner::Error), Msg(String) }
pub fn vx_anyhow(m: String) -> (r: AnyErr) ensures r == AnyErr::Msg(m) { AnyErr::Msg(m) }
impl VxInto for AnyErr {
    open spec fn as_any(&self, e: AnyErr) -> bool { e == *self }
    fn vx_into(self) -> (r: AnyErr) { self }
}
impl VxInto for combiner::Error {
    open spec fn as_any(&self, e: AnyErr) -> bool { e == AnyErr::Comb(*self) }
    fn vx_into(self) -> (r: AnyErr) { AnyErr::Comb(self) }
}
pub ghost enum PL { Plan(SHir), BadText(int), BadMerge(int) }
pub open spec fn planned_trees(s: Seq<char>, skip: bool) -> Seq<SHir> {
    texts_of(s).map_values(|t: Seq<char>| h_root(tree_of(t)->Tree_0, skip))
}
pub open spec fn all_mergeable(hs: Seq<SHir>) -> bool { forall|i: int| 0 <= i < hs.len() ==> t_ok(hs, i) }
pub open spec fn plan_of(s: Seq<char>, skip: bool) -> PL {
    let ts = texts_of(s);
    let b = bad_text(ts, 0);
    let hs = planned_trees(s, skip);
    if b < ts.len() { PL::BadText(b) }
    else if ts.len() == 1 { PL::Plan(hs[0]) }
    else if all_mergeable(hs) { PL::Plan(merged(hs)) }
    else { PL::BadMerge(first_bad(hs, 0)) }
}
pub open spec fn plan_is(r: AnyResult<Hir>, s: Seq<char>, skip: bool) -> bool {
    match (plan_of(s, skip), r) {
        (PL::Plan(h), Ok(x)) => hv(x) == h,
        (PL::BadText(b), Err(e)) => err_of(e, texts_of(s)[b]),
        (PL::BadMerge(i), Err(AnyErr::Comb(e))) => combiner::c_err(planned_trees(s, skip), i, e, s),
        _ => false,
    }
}
}
