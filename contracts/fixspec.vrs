// ---------------------------------------------------------------- what a fix does
/// the contract that a Solidity file is checked against
pub open spec fn contract_of(u: SourceUnit) -> Option<pt::ContractDefinition> {
    let i = sol::contract_at(u.0@, 0);
    if 0 <= i < u.0@.len() { Some(*(u.0@[i]->ContractDefinition_0)) } else { None }
}
//@@ include plannedspec
/// the functions of the plan
pub open spec fn plan_kids(h: SHir) -> Option<Seq<SHir>> {
    match h {
        SHir::Root { kids } => if planned_at(kids, 0) < kids.len() { Some(kids[planned_at(kids, 0)]->Contract_kids) } else { None },
        SHir::Contract { kids, .. } => Some(kids),
        _ => None,
    }
}
/// everything but the text stays, and the text keeps its parse tree
pub open spec fn only_text(c: Context, r: Context) -> bool {
    r.tree == c.tree && r.sol == c.sol && r.hir == c.hir && r.cfg == c.cfg && parsed_as(r.src@, r.pt) && r.comments == notes_of(r.src@)
}
/// the text becomes t, if that is Solidity
pub open spec fn updated(c: Context, t: Seq<char>, r: Context) -> bool { r.src@ == (if pt_of(t) is Some { t } else { c.src@ }) }
pub open spec fn renamed(s: Seq<char>, l: pt::Loc, name: Seq<char>) -> Seq<char> { patch(s, l->File_1 as int, l->File_2 as int, name) }
pub open spec fn less_space(s: Seq<char>) -> Seq<char> { s.take(trim_end(s, s.len() as int)) }
pub open spec fn with_fn(s: Seq<char>, o: int, f: SHir) -> Seq<char> { s.take(idx(s, o)) + "\n\n"@ + less_space(e_fn(f, 2)) + s.skip(idx(s, o)) }
pub open spec fn fix_is(k: ViolationKind, c: Context, r: Context) -> bool {
    only_text(c, r) && match k {
        // the whole contract, as scaffolding it gives
        ViolationKind::ContractMissing(_) => updated(c, sol::clean(sol::s_unit(hv(c.hir), DEFAULT_SOL_VERSION@, false, false, true)), r),
        // the contract's name, nothing else
        ViolationKind::ContractNameNotMatches(name, _) => match contract_of(c.pt) {
            Some(x) => match x.name { Some(n) => updated(c, renamed(c.src@, n.loc, name@), r), None => r.src@ == c.src@ },
            None => r.src@ == c.src@,
        },
        // the function, after the closest one before it in the tree; nothing else changes
        ViolationKind::MatchingFunctionMissing(f, i) => match (plan_kids(hv(c.hir)), contract_of(c.pt)) {
            (Some(kids), Some(x)) => updated(c, with_fn(c.src@, gap(x, kids, i as int, c.src@), fv(f)), r),
            _ => r.src@ == c.src@,
        },
        _ => r.src@ == c.src@,
    }
}
pub open spec fn fixable(k: ViolationKind) -> bool {
    k is ContractMissing || k is ContractNameNotMatches || k is FunctionOrderMismatch || k is MatchingFunctionMissing
}
