// ---------------------------------------------------------------- what a tree's functions are matched with
pub open spec fn fn_matches(h: SHir, p: ContractPart) -> bool {
    match (h, p) {
        (SHir::Fun { name, modifier, .. }, ContractPart::FunctionDefinition(f)) =>
            oid_is(f.name, name) && (if modifier { f.ty is Modifier } else { f.ty is Function }),
        _ => false,
    }
}
/// index of the first match at or after i; the number of parts if there is none
pub open spec fn match_at(v: Seq<ContractPart>, h: SHir, i: int) -> int
    decreases v.len() - i
{ if i < 0 || i >= v.len() { v.len() as int } else if fn_matches(h, v[i]) { i } else { match_at(v, h, i + 1) } }
pub open spec fn first_match(v: Seq<ContractPart>, h: SHir) -> int { match_at(v, h, 0) }
pub open spec fn matched(v: Seq<ContractPart>, h: SHir) -> bool { first_match(v, h) < v.len() }
/// index of the first contract at or after i; the number of parts if there is none
pub open spec fn contract_at(v: Seq<SourceUnitPart>, i: int) -> int
    decreases v.len() - i
{ if i < 0 || i >= v.len() { v.len() as int } else if v[i] is ContractDefinition { i } else { contract_at(v, i + 1) } }
